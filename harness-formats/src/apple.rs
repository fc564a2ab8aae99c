//! Apple disk images: sparse image, sparse bundle, UDIF.

use crate::common::*;
use crate::pack;
use keramics_core::DataStream;
use keramics_formats::sparsebundle::SparseBundleImage;
use keramics_formats::sparseimage::SparseImageFile;
use keramics_formats::udif::{UdifCompressionMethod, UdifFile};
use pbt::*;

struct Image {
    image: Sparse,
    shows: Sparse,
    unit: u64,
    marks: Vec<u64>,
    hot: Vec<(u64, u64)>,
}

/// Data in some places of a range.
fn scatter(g: &mut Gen, image: &mut Sparse, shows: &mut Sparse, at: u64, media: u64, size: u64, marks: &mut Vec<u64>) {
    let n = g.usize(1, 3);
    for _ in 0..n {
        let o = near(g, size - 1, 512, &[]);
        let length = g.usize(1, 3000).min((size - o) as usize);
        let data = content(g, length);
        image.put(at + o, &data);
        let left = data.len().min(shows.size.saturating_sub(media + o) as usize);
        shows.poke(media + o, &data[..left]);
        marks.push(media + o);
    }
}

fn shuffle<T>(g: &mut Gen, list: &mut [T]) {
    for i in (1..list.len()).rev() {
        list.swap(i, g.usize(0, i));
    }
}

fn sparse_image(g: &mut Gen) -> Image {
    let sectors = match g.below_or(3) {
        0 => 2048,
        1 => g.range(1, 40),
        2 => 1 << g.below_or(22),
        _ => up_to(g, &[1 << 12, 1 << 17, (1 << 32) / 512 - 2]) + 1,
    };
    let band = sectors * 512;
    let limit = (sectors * 1008).min(u32::MAX as u64);
    let total = match g.below_or(2) {
        0 => g.below_or(sectors * 4),
        1 => (sectors * g.below_or(9)).saturating_sub(g.below_or(2)),
        _ => limit - g.below_or(2),
    }
    .min(limit);
    let bands = total.div_ceil(sectors);
    let mut used: Vec<u64> = (0..bands).filter(|_| bands < 12 || g.chance(8, bands)).collect();
    used.truncate(if sectors > 4096 && !sectors.is_power_of_two() { 6 } else { 12 });
    if bands > 0 && g.bool() && !used.contains(&(bands - 1)) {
        used.push(bands - 1);
    }
    shuffle(g, &mut used);
    let keep = g.usize(0, used.len());
    if g.bool() {
        used.truncate(keep);
    }
    let mut header = vec![0u8; 4096];
    header.at(0, b"sprs");
    header.set_be(4, 3, 4);
    header.set_be(8, sectors, 4);
    header.set_be(12, 1, 4);
    header.set_be(16, total, 4);
    let mut image = Sparse::new(0);
    let mut shows = Sparse::new(total * 512);
    let mut marks = Vec::new();
    let mut slot = 0;
    for b in &used {
        header.set_be(64 + 4 * slot as usize, b + 1, 4);
        let at = 4096 + slot * band;
        let size = band.min(total * 512 - b * band);
        scatter(g, &mut image, &mut shows, at, b * band, size, &mut marks);
        image.size = image.size.max(at + if g.bool() { size } else { band });
        marks.push(b * band);
        slot += 1;
        // A band that is not in use.
        if slot + (used.len() as u64) < bands && g.chance(1, 6) {
            slot += 1;
        }
        if slot >= bands {
            break;
        }
    }
    image.put(0, &header);
    Image { image, shows, unit: band.min(65536), marks, hot: vec![(0, 20), (64, 4 * slot.max(1))] }
}

fn sparse_image_reads(g: &mut Gen) -> CaseResult {
    let i = sparse_image(g);
    g.note(|| format!("{} bytes, marks {:?}", i.shows.size, i.marks));
    if i.marks.len() > 2 {
        g.nontrivial();
    }
    let mut file = SparseImageFile::new();
    if let Err(e) = file.read_data_stream(&i.image.stream()) {
        return fail(format!("a valid image is rejected: {}", e.to_string()));
    }
    check_stream(g, "sparse image", &mut file, &i.shows, i.unit, &i.marks)
}

/// What is left of an image that was cut off is still read from the right places.
fn sparse_image_cut(g: &mut Gen) -> CaseResult {
    let mut i = sparse_image(g);
    let size = 4096 + g.below_or(i.image.size - 4096);
    i.image.truncate(size);
    if i.marks.len() > 2 {
        g.nontrivial();
    }
    let mut file = SparseImageFile::new();
    if file.read_data_stream(&i.image.stream()).is_err() {
        return Ok(());
    }
    check_cut(g, &mut file, &i)
}

fn check_cut(g: &mut Gen, file: &mut dyn DataStream, i: &Image) -> CaseResult {
    for _ in 0..4 {
        let at = near(g, i.shows.size, i.unit, &i.marks);
        let mut buffer = vec![0u8; g.usize(1, 9000)];
        if let Ok(count) = file.read_at_position(&mut buffer, std::io::SeekFrom::Start(at)) {
            let want = i.shows.get(at, count);
            check!(buffer[..count] == want[..], "{} bytes at {} of an image that was cut off: {}", count, at, difference(&buffer[..count], &want));
        }
    }
    Ok(())
}

fn sparse_image_damaged(g: &mut Gen) -> CaseResult {
    let mut i = sparse_image(g);
    damage(g, &mut i.image, &i.hot);
    g.nontrivial();
    let mut file = SparseImageFile::new();
    if file.read_data_stream(&i.image.stream()).is_ok() {
        g.class("accepted");
        touch(g, &mut file);
    }
    Ok(())
}

pub static C46: Property = Property {
    id: "C46",
    rule: "an image with more than two marks (bands, data in bands); damaged images all count",
    assumptions: &[],
    facets: &[
        Facet { name: "image", work: Work::Random(1500, 15000), case: sparse_image_reads },
        Facet { name: "cut off", work: Work::Random(300, 3000), case: sparse_image_cut },
        Facet { name: "damaged", work: Work::Random(1000, 10000), case: sparse_image_damaged },
    ],
};

/// Writes XML in one of many equal ways.
struct Xml {
    newline: &'static str,
    indent: &'static str,
    comments: bool,
    spaced: bool,
}

impl Xml {
    fn some(g: &mut Gen) -> Xml {
        Xml {
            newline: g.pick(&["\n", "\n", "\r\n", ""]),
            indent: g.pick(&["\t", "    ", ""]),
            comments: g.chance(1, 5),
            spaced: g.chance(1, 5),
        }
    }

    fn gap(&self, g: &mut Gen, depth: usize) -> String {
        let mut s = format!("{}{}", self.newline, self.indent.repeat(depth));
        if self.comments && g.chance(1, 4) {
            s.push_str(g.pick(&["<!-- a comment -->", "<!---->", "<!-- <key>size</key> -->", "<?target data?>"]));
            s.push_str(self.newline);
        }
        s
    }

    fn tag(&self, g: &mut Gen, name: &str, body: &str) -> String {
        let (a, b) = if self.spaced {
            (*g.pick(&["", " ", "\n", " a=\"b\"", " c='d' "]), *g.pick(&["", " "]))
        } else {
            ("", "")
        };
        format!("<{}{}>{}</{}{}>", name, a, body, name, b)
    }

    fn dict(&self, g: &mut Gen, depth: usize, pairs: &[(String, String)]) -> String {
        let mut s = String::new();
        for (k, v) in pairs {
            s.push_str(&self.gap(g, depth + 1));
            s.push_str(&self.tag(g, "key", k));
            s.push_str(self.newline);
            s.push_str(&self.indent.repeat(depth + 1));
            s.push_str(v);
        }
        s.push_str(&self.gap(g, depth));
        self.tag(g, "dict", &s)
    }

    fn array(&self, g: &mut Gen, depth: usize, values: &[String]) -> String {
        let mut s = String::new();
        for v in values {
            s.push_str(&self.gap(g, depth + 1));
            s.push_str(v);
        }
        s.push_str(&self.gap(g, depth));
        self.tag(g, "array", &s)
    }

    /// A value of any type.
    fn other(&self, g: &mut Gen, depth: usize) -> String {
        match g.below_or(if depth < 4 { 8 } else { 6 }) {
            0 => self.tag(g, "string", "text"),
            1 => self.tag(g, "string", "h\u{e9}llo \u{65e5}\u{672c} > ' \""),
            2 => self.tag(g, "integer", "-12"),
            3 => self.tag(g, "real", "1.5e3"),
            4 => "<true/>".to_string(),
            5 => "<false/>".to_string(),
            6 => {
                let n = g.usize(1, 9);
                let data = g.bytes(n);
                self.tag(g, "data", &pack::base64(&data, 3, self.newline))
            }
            7 => {
                let n = g.usize(0, 3);
                let values: Vec<String> = (0..n).map(|_| self.other(g, depth + 1)).collect();
                self.array(g, depth, &values)
            }
            _ => {
                let n = g.usize(0, 3);
                let pairs: Vec<(String, String)> = (0..n).map(|i| (format!("key {}", i), self.other(g, depth + 1))).collect();
                self.dict(g, depth, &pairs)
            }
        }
    }

    fn document(&self, g: &mut Gen, root: &str) -> String {
        let mut s = String::new();
        if g.chance(1, 8) {
            s.push('\u{feff}');
        }
        if g.chance(4, 5) {
            s.push_str(g.pick(&[
                "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
                "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>",
                "<?xml version=\"1.0\"?>\r\n",
            ]));
        }
        s.push_str(g.pick(&["", "<!-- a -->", "\n<!-- a - b -->\n"]));
        if g.chance(4, 5) {
            s.push_str("<!DOCTYPE plist PUBLIC \"-//Apple//DTD PLIST 1.0//EN\" \"http://www.apple.com/DTDs/PropertyList-1.0.dtd\">\n");
        }
        s.push_str(&format!("<plist{}>{}", g.pick(&[" version=\"1.0\"", "", " version='1.0' "]), self.newline));
        s.push_str(root);
        s.push_str(&format!("{}</plist>{}", self.newline, g.pick(&["\n", "", "\n<!-- end -->\n"])));
        s
    }
}

struct Bundle {
    plist: String,
    files: Vec<(String, Sparse)>,
    shows: Sparse,
    band: u64,
    marks: Vec<u64>,
}

fn bundle(g: &mut Gen) -> Bundle {
    let band = match g.below_or(4) {
        0 => 8 << 20,
        1 => g.range(1, 2000),
        2 => 512 * g.range(1, 300),
        3 => u32::MAX as u64 - g.below_or(9),
        _ => 1 << g.below_or(31),
    };
    let size = match g.below_or(3) {
        0 => g.range(1, band.min(1 << 20)),
        1 => g.range(1, 5 * band),
        2 => (band * g.range(1, 300)).saturating_sub(g.below_or(1)).max(1),
        _ => up_to(g, &[1 << 40, i64::MAX as u64 - 1]) + 1,
    };
    let bands = size.div_ceil(band);
    let mut shows = Sparse::new(size);
    let mut files = Vec::new();
    let mut marks = Vec::new();
    let mut used: Vec<u64> = Vec::new();
    let n = g.usize(0, 6);
    let mut b = g.below_or(bands - 1);
    for _ in 0..n {
        if !used.contains(&b) {
            used.push(b);
        }
        b = match g.below_or(3) {
            0 => bands - 1,
            1 => g.below_or(bands - 1),
            2 => g.below_or((bands - 1).min(40)),
            _ => (b + 1).min(bands - 1),
        };
    }
    for b in &used {
        let mut image = Sparse::new(0);
        let whole = band.min(size - b * band);
        // A band file is as long as what was written in it.
        let full = g.bool();
        scatter(g, &mut image, &mut shows, 0, b * band, whole, &mut marks);
        if full {
            image.size = image.size.max(if g.bool() { whole } else { band });
        } else {
            marks.push((b * band + image.size).min(size));
            g.class("band file shorter than the band");
        }
        marks.push(b * band);
        files.push((format!("bands/{:x}", b), image));
    }
    g.class_if((used.len() as u64) < bands, "band without a file");
    let x = Xml::some(g);
    let mut pairs = vec![
        ("CFBundleInfoDictionaryVersion".to_string(), x.tag(g, "string", "6.0")),
        ("band-size".to_string(), x.tag(g, "integer", &band.to_string())),
        ("diskimage-bundle-type".to_string(), x.tag(g, "string", "com.apple.diskimage.sparsebundle")),
        ("size".to_string(), x.tag(g, "integer", &size.to_string())),
    ];
    if g.chance(3, 4) {
        pairs.push(("bundle-backingstore-version".to_string(), x.tag(g, "integer", "1")));
    }
    let n = g.usize(0, 2);
    for i in 0..n {
        let v = x.other(g, 1);
        pairs.push((format!("other {}", i), v));
    }
    shuffle(g, &mut pairs);
    let root = x.dict(g, 0, &pairs);
    let plist = x.document(g, &root);
    g.class_if(x.comments, "comments");
    Bundle { plist, files, shows, band, marks }
}

fn open_bundle(plist: Vec<u8>, b: &Bundle) -> Result<SparseBundleImage, String> {
    let mut files = b.files.clone();
    files.push(("Info.plist".to_string(), Sparse::of(plist)));
    files.push(("token".to_string(), Sparse::new(0)));
    let mut image = SparseBundleImage::new();
    image.open(&Folder::of(files).resolver()).map_err(|e| e.to_string())?;
    Ok(image)
}

fn bundle_reads(g: &mut Gen) -> CaseResult {
    let b = bundle(g);
    g.note(|| format!("{} bytes in bands of {}, marks {:?}: {}", b.shows.size, b.band, b.marks, short(&b.plist)));
    if b.marks.len() > 2 {
        g.nontrivial();
    }
    let mut image = match open_bundle(b.plist.clone().into_bytes(), &b) {
        Ok(image) => image,
        Err(e) => return fail(format!("a valid bundle is rejected: {}: {}", e, b.plist)),
    };
    check_eq!(image.block_size as u64, b.band, "band size");
    let unit = b.band.min(65536);
    let mut marks = b.marks.clone();
    marks.push(b.shows.size - 1);
    check_stream(g, "sparse bundle", &mut image, &b.shows, unit, &marks)
}

fn bundle_damaged(g: &mut Gen) -> CaseResult {
    let b = bundle(g);
    let mut text = b.plist.clone().into_bytes();
    let n = g.usize(1, 4);
    for _ in 0..n {
        if text.is_empty() {
            break;
        }
        let at = g.usize(0, text.len() - 1);
        match g.below_or(5) {
            0 => text[at] = g.u8(),
            1 => text.truncate(at),
            2 => {
                let end = (at + g.usize(1, 40)).min(text.len());
                text.drain(at..end);
            }
            3 => {
                let end = (at + g.usize(1, 200)).min(text.len());
                let part = text[at..end].to_vec();
                let to = g.usize(0, text.len());
                text.splice(to..to, part);
            }
            4 => {
                let part: &[u8] = g.pick(&[
                    &b"<dict>"[..], b"</dict>", b"<array>", b"</array>", b"<date>2001-01-01T00:00:00Z</date>", b"&amp;", b"&#x41;", b"<![CDATA[x]]>", b"<data>@@</data>", b"<data>YQ</data>",
                    b"<integer>99999999999999999999</integer>", b"<key>size</key><integer>-1</integer>", b"<key>band-size</key><integer>0</integer>", b"<real>nan</real>", b"\0", b"\xff", b"]]>",
                ]);
                text.splice(at..at, part.to_vec());
            }
            _ => {
                let digits: Vec<usize> = (0..text.len()).filter(|i| text[*i].is_ascii_digit()).collect();
                if !digits.is_empty() {
                    let i = *g.pick(&digits);
                    text[i] = *g.pick(b"0123456789-ax");
                }
            }
        }
    }
    g.nontrivial();
    if let Ok(mut image) = open_bundle(text, &b) {
        g.class("accepted");
        touch(g, &mut image);
    }
    Ok(())
}

/// Deep values do not exhaust the stack.
fn bundle_nested(g: &mut Gen) -> CaseResult {
    let b = bundle(g);
    let depth = up_to(g, &[20, 400, 4000, 9300]) as usize;
    let (open, close) = *g.pick(&[("<array>", "</array>"), ("<dict><key>a</key>", "</dict>")]);
    let at = b.plist.find("<key").unwrap_or(0);
    let mut text = b.plist.clone();
    let closed = if g.chance(1, 4) { g.usize(0, depth) } else { depth };
    text.insert_str(at, &format!("<key>deep</key>{}<true/>{}", open.repeat(depth), close.repeat(closed)));
    if text.len() > 65536 {
        return discard();
    }
    g.nontrivial();
    g.class_if(depth > 1000, "more than 1000 levels");
    // With the stack that the main thread of a program has.
    let worker = std::thread::Builder::new().stack_size(8 << 20);
    let opened = worker.spawn(move || open_bundle(text.into_bytes(), &b).is_ok()).unwrap().join();
    let opened = match opened {
        Ok(opened) => opened,
        Err(_) => return fail("panic"),
    };
    if opened {
        g.class("accepted");
    } else {
        check!(depth > 20 || closed != depth, "a valid bundle with {} levels in its property list is rejected", depth);
    }
    Ok(())
}

pub static C53: Property = Property {
    id: "C53",
    rule: "an image with more than two marks (bands, data in bands); damaged property lists all count",
    assumptions: &["The property list has no dates, no character or entity references and no CDATA sections."],
    facets: &[
        Facet { name: "image", work: Work::Random(1000, 10000), case: bundle_reads },
        Facet { name: "damaged", work: Work::Random(1500, 15000), case: bundle_damaged },
        Facet { name: "nested", work: Work::Random(20, 200), case: bundle_nested },
    ],
};

struct Udif {
    i: Image,
    method: u32,
    /// Start and size of the compressed blocks in the file, and offset in the media.
    blocks: Vec<(u64, u64, u64, u64)>,
}

fn udif(g: &mut Gen) -> Udif {
    let mut image = Sparse::new(0);
    let start = if g.chance(1, 4) { g.below_or(600) } else { 0 };
    image.size = start;
    if g.chance(1, 8) {
        // Without property list: as the data fork has it.
        let size = g.usize(0, 9000);
        let data = content(g, size);
        image.put(start, &data);
        let footer = udif_footer(start, size as u64, 0, 0);
        let end = image.size;
        image.put(end, &footer);
        g.class("no property list");
        return Udif {
            i: Image { image, shows: Sparse::of(data), unit: 512, marks: Vec::new(), hot: vec![(end, 512)] },
            method: 0,
            blocks: Vec::new(),
        };
    }
    let method = *g.pick(&[4u32, 5, 6, 7]);
    let tables = g.usize(1, 3);
    let mut shows = Sparse::new(0);
    let mut marks = Vec::new();
    let mut blocks = Vec::new();
    let mut values = Vec::new();
    let mut compressed = false;
    let x = Xml::some(g);
    let mut hot = Vec::new();
    let mut total = 0u64;
    for t in 0..tables {
        let mut table = vec![0u8; 204];
        table.at(0, b"mish");
        table.set_be(4, 1, 4);
        let first = total;
        table.set_be(8, first, 8);
        let many = g.chance(1, 60);
        let n = g.usize(if t == 0 { 1 } else { 0 }, if many { 250 } else { 6 });
        g.class_if(n > 100, "more than 100 blocks");
        let mut entries = 0;
        for _ in 0..n {
            let kind = *g.pick(&[0u64, 1, 2, 3, 3, 3, 3, 9]);
            let sectors = match (kind, g.below_or(6)) {
                (0 | 2, 0) => g.range(1, 1 << 34),
                (0 | 2, _) => g.range(1, 5000),
                (1, 0) if g.chance(1, 6) => g.range(600, 1 << 34),
                (_, 0) if g.chance(1, 12) => 2048,
                (_, 1) => g.range(1, 200),
                _ => g.range(1, 20),
            };
            let mut e = vec![0u8; 40];
            let offset = shows.size;
            e.set_be(8, total - first, 8);
            e.set_be(16, sectors, 8);
            if g.chance(1, 60) {
                image.size += g.below_or(1 << 42);
                g.class("data beyond 4 GiB");
            }
            let here = image.size;
            e.set_be(24, here, 8);
            match kind {
                9 => {
                    e.set_be(0, 0x7ffffffe, 4);
                    e.at(4, b"+beg");
                    e.set_be(16, 0, 8);
                }
                0 | 2 => {
                    e.set_be(0, kind, 4);
                    if g.chance(1, 3) {
                        e.set_be(24, start, 8);
                    }
                }
                1 if sectors > 600 => {
                    e.set_be(0, 1, 4);
                    e.set_be(32, sectors * 512, 8);
                    shows.size = shows.size.max(offset + sectors * 512);
                    scatter(g, &mut image, &mut shows, here, offset, sectors * 512, &mut marks);
                    image.size = here + sectors * 512;
                    g.class_if(sectors > 1 << 23, "block of more than 4 GiB");
                }
                1 => {
                    let data = content(g, sectors as usize * 512);
                    e.set_be(0, 1, 4);
                    e.set_be(32, data.len() as u64, 8);
                    image.put(here, &data);
                    shows.put(offset, &data);
                }
                _ => {
                    // Mostly runs in large blocks.
                    let mut data = vec![g.u8(); sectors as usize * 512];
                    let o = g.usize(0, data.len() - 1);
                    let length = g.usize(1, 3000).min(data.len() - o);
                    let part = content(g, length);
                    data[o..o + length].copy_from_slice(&part);
                    let packed = match method {
                        4 => pack::adc(g, &data),
                        5 => pack::zlib(g, &data),
                        6 => pack::bzip2(g, &data),
                        _ => pack::lzfse(g, &data),
                    };
                    e.set_be(0, 0x80000000 | method as u64, 4);
                    e.set_be(32, packed.len() as u64, 8);
                    image.put(here, &packed);
                    shows.put(offset, &data);
                    marks.push(offset + o as u64);
                    blocks.push((here, packed.len() as u64, offset, data.len() as u64));
                    compressed = true;
                    if g.chance(1, 8) {
                        let n = g.below_or(9);
                        image.size += n;
                    }
                }
            }
            table.extend_from_slice(&e);
            entries += 1;
            if kind != 9 {
                total += sectors;
                shows.size = total * 512;
                marks.push(shows.size);
            }
        }
        if g.chance(9, 10) {
            let mut e = vec![0u8; 40];
            e.set_be(0, 0xffffffff, 4);
            e.set_be(8, total - first, 8);
            table.extend_from_slice(&e);
            entries += 1;
            if g.chance(1, 8) {
                // Nothing comes after the end.
                table.extend_from_slice(&[0x11; 40]);
                entries += 1;
            }
        }
        table.set_be(16, total - first, 8);
        table.set_be(200, entries, 4);
        let coded = pack::base64(&table, 3 * g.usize(1, 20), &format!("{}{}", x.newline, x.indent));
        let mut pairs = vec![
            ("Attributes".to_string(), x.tag(g, "string", "0x0050")),
            ("CFName".to_string(), x.tag(g, "string", "whole disk (Apple_HFS : 0)")),
            ("Data".to_string(), x.tag(g, "data", &coded)),
            ("ID".to_string(), x.tag(g, "string", &(t as i32 - 1).to_string())),
            ("Name".to_string(), x.tag(g, "string", "whole disk (Apple_HFS : 0)")),
        ];
        shuffle(g, &mut pairs);
        values.push(x.dict(g, 3, &pairs));
    }
    let fork = image.size - start;
    let blkx = x.array(g, 2, &values);
    let mut pairs = vec![("blkx".to_string(), blkx)];
    if g.bool() {
        let v = x.other(g, 2);
        pairs.push(("plst".to_string(), v));
    }
    shuffle(g, &mut pairs);
    let resources = x.dict(g, 1, &pairs);
    let mut pairs = vec![("resource-fork".to_string(), resources)];
    if g.chance(1, 3) {
        let v = x.other(g, 1);
        pairs.push(("other".to_string(), v));
    }
    shuffle(g, &mut pairs);
    let root = x.dict(g, 0, &pairs);
    let plist = x.document(g, &root).into_bytes();
    let at = image.size;
    image.put(at, &plist);
    hot.push((at, plist.len() as u64));
    let n = g.below_or(20);
    image.size += n;
    let end = image.size;
    image.put(end, &udif_footer(start, fork, at, plist.len() as u64));
    hot.push((end, 240));
    for b in &blocks {
        hot.push((b.0, b.1.min(60)));
    }
    Udif { i: Image { image, shows, unit: 4096, marks, hot }, method: if compressed { method } else { 0 }, blocks }
}

fn udif_footer(start: u64, size: u64, plist: u64, plist_size: u64) -> Vec<u8> {
    let mut f = vec![0u8; 512];
    f.at(0, b"koly");
    f.set_be(4, 4, 4);
    f.set_be(8, 512, 4);
    f.set_be(12, 1, 4);
    f.set_be(24, start, 8);
    f.set_be(32, size, 8);
    f.set_be(216, plist, 8);
    f.set_be(224, plist_size, 8);
    f.set_be(488, 1, 4);
    f
}

fn udif_reads(g: &mut Gen) -> CaseResult {
    let u = udif(g);
    g.note(|| format!("{} bytes, method {}, marks {:?}", u.i.shows.size, u.method, u.i.marks));
    if u.i.marks.len() > 2 {
        g.nontrivial();
    }
    g.class(["not compressed", "", "", "", "ADC", "zlib", "bzip2", "LZFSE"][u.method as usize]);
    let mut file = UdifFile::new();
    if let Err(e) = file.read_data_stream(&u.i.image.stream()) {
        return fail(format!("a valid image is rejected: {}", e.to_string()));
    }
    let method = match file.compression_method {
        UdifCompressionMethod::None => 0,
        UdifCompressionMethod::Adc => 4,
        UdifCompressionMethod::Zlib => 5,
        UdifCompressionMethod::Bzip2 => 6,
        UdifCompressionMethod::Lzfse => 7,
        UdifCompressionMethod::Lzma => 8,
    };
    check_eq!(method, u.method, "compression method");
    check_stream(g, "UDIF image", &mut file, &u.i.shows, u.i.unit, &u.i.marks)?;
    if u.i.shows.size < 1 << 20 {
        check_all("UDIF image", &mut file, &u.i.shows, 30000)?;
    }
    Ok(())
}

/// A block that does not decompress to its sectors is an error when it is read.
fn udif_short(g: &mut Gen) -> CaseResult {
    let mut u = udif(g);
    for _ in 0..5 {
        if u.blocks.is_empty() {
            u = udif(g);
        }
    }
    if u.blocks.is_empty() {
        return discard();
    }
    let (at, size, media, length) = *g.pick(&u.blocks);
    let data = u.i.shows.get(media, length as usize);
    let mut fits = None;
    for _ in 0..6 {
        let keep = g.usize(1, length as usize) - 1;
        let keep = keep.max(1);
        let packed = match u.method {
            4 => pack::adc(g, &data[..keep]),
            5 => pack::zlib(g, &data[..keep]),
            6 => pack::bzip2(g, &data[..keep]),
            _ => pack::lzfse(g, &data[..keep]),
        };
        if packed.len() as u64 == size || u.method != 4 && packed.len() as u64 <= size {
            fits = Some((keep, packed));
            break;
        }
    }
    let Some((keep, mut packed)) = fits else { return discard() };
    packed.resize(size as usize, 0);
    u.i.image.poke(at, &packed);
    g.nontrivial();
    let mut file = UdifFile::new();
    if let Err(e) = file.read_data_stream(&u.i.image.stream()) {
        return fail(format!("the image is rejected: {}", e.to_string()));
    }
    let mut buffer = vec![0; 512];
    let o = g.below_or(length - 1);
    check!(file.read_at_position(&mut buffer, std::io::SeekFrom::Start(media + o)).is_err(), "a block of {} that decompresses to {} bytes is read at {}", length, keep, o);
    Ok(())
}

fn udif_damaged(g: &mut Gen) -> CaseResult {
    let mut u = udif(g);
    damage(g, &mut u.i.image, &u.i.hot);
    g.nontrivial();
    let mut file = UdifFile::new();
    if file.read_data_stream(&u.i.image.stream()).is_ok() {
        g.class("accepted");
        touch(g, &mut file);
        for m in &u.i.marks {
            let mut buffer = vec![0; 700];
            let _ = file.read_at_position(&mut buffer, std::io::SeekFrom::Start(*m));
        }
    }
    Ok(())
}

/// Damage in the block tables, which are coded in the property list.
fn udif_tables(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 4);
    let fork = g.edgy(16);
    let start = if g.bool() { 0 } else { g.edgy(64) };
    let mut table = vec![0u8; 204 + 40 * n];
    table.at(0, b"mish");
    table.set_be(4, 1, 4);
    table.set_be(200, n as u64, 4);
    let mut sector = 0u64;
    for i in 0..n {
        let e = 204 + 40 * i;
        let kind = *g.pick(&[0u64, 1, 2, 0x80000004, 0x80000004, 0x80000005, 0x80000008, 0xffffffff]);
        table.set_be(e, kind, 4);
        table.set_be(e + 8, sector, 8);
        let sectors = match g.below_or(3) {
            0 => g.below_or(2048),
            1 => u64::MAX / 512 - g.below_or(1),
            2 => 1 << g.below_or(55),
            _ => g.edgy(64),
        };
        table.set_be(e + 16, sectors, 8);
        table.set_be(e + 24, if g.bool() { start } else { g.edgy(64) }, 8);
        table.set_be(e + 32, if g.bool() { g.below_or(fork) } else { g.edgy(64) }, 8);
        sector = sector.wrapping_add(sectors);
    }
    let text = format!(
        "<plist><dict><key>resource-fork</key><dict><key>blkx</key><array><dict><key>Data</key><data>{}</data></dict></array></dict></dict></plist>",
        pack::base64(&table, 30, "\n")
    );
    let mut image = Sparse::new(0);
    let data = g.blob(fork as usize);
    image.put(0, &data);
    let at = image.size;
    image.put(at, text.as_bytes());
    let end = image.size;
    let size = if g.chance(1, 6) { g.edgy(64) } else { fork };
    image.put(end, &udif_footer(start, size, at, text.len() as u64));
    g.nontrivial();
    let mut file = UdifFile::new();
    if file.read_data_stream(&image.stream()).is_ok() {
        g.class("accepted");
        touch(g, &mut file);
    }
    Ok(())
}

pub static C47: Property = Property {
    id: "C47",
    rule: "an image with more than two marks (block ranges, data in blocks); short blocks and damaged images all count",
    assumptions: &["Data offsets are relative to the file. The property list is not larger than 64 KiB, which the code refuses."],
    facets: &[
        Facet { name: "image", work: Work::Random(400, 4000), case: udif_reads },
        Facet { name: "short block", work: Work::Random(200, 2000), case: udif_short },
        Facet { name: "damaged", work: Work::Random(500, 5000), case: udif_damaged },
        Facet { name: "tables", work: Work::Random(1500, 15000), case: udif_tables },
    ],
};
