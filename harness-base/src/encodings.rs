//! C10 single byte encodings, C11 Windows 932, C12 UTF-8, C13 Base64.

use std::collections::HashMap;
use std::sync::OnceLock;

use keramics_encodings::*;
use pbt::*;

pub struct Codec {
    pub name: &'static str,
    pub encoding: CharacterEncoding,
    pub decode: Vec<Option<u32>>,
    /// Bytes that represent a code point.
    pub encode: HashMap<u32, Vec<u8>>,
}

fn encoding_by_name(name: &str) -> CharacterEncoding {
    use CharacterEncoding::*;
    match name {
        "Ascii" => Ascii,
        "Iso8859_1" => Iso8859_1,
        "Iso8859_2" => Iso8859_2,
        "Iso8859_3" => Iso8859_3,
        "Iso8859_4" => Iso8859_4,
        "Iso8859_5" => Iso8859_5,
        "Iso8859_6" => Iso8859_6,
        "Iso8859_7" => Iso8859_7,
        "Iso8859_8" => Iso8859_8,
        "Iso8859_9" => Iso8859_9,
        "Iso8859_10" => Iso8859_10,
        "Iso8859_11" => Iso8859_11,
        "Iso8859_13" => Iso8859_13,
        "Iso8859_14" => Iso8859_14,
        "Iso8859_15" => Iso8859_15,
        "Iso8859_16" => Iso8859_16,
        "Koi8R" => Koi8R,
        "Koi8U" => Koi8U,
        "MacArabic" => MacArabic,
        "MacCeltic" => MacCeltic,
        "MacCentralEurRoman" => MacCentralEurRoman,
        "MacCroatian" => MacCroatian,
        "MacCyrillic" => MacCyrillic,
        "MacDingbats" => MacDingbats,
        "MacFarsi" => MacFarsi,
        "MacGaelic" => MacGaelic,
        "Windows874" => Windows874,
        "Windows1250" => Windows1250,
        "Windows1251" => Windows1251,
        "Windows1252" => Windows1252,
        "Windows1253" => Windows1253,
        "Windows1254" => Windows1254,
        "Windows1255" => Windows1255,
        "Windows1256" => Windows1256,
        "Windows1257" => Windows1257,
        "Windows1258" => Windows1258,
        _ => unreachable!("{}", name),
    }
}

pub fn codecs() -> &'static Vec<Codec> {
    static TABLE: OnceLock<Vec<Codec>> = OnceLock::new();
    TABLE.get_or_init(|| {
        include_str!("../data/codecs.txt")
            .lines()
            .map(|line| {
                let mut fields = line.split(' ');
                let name = fields.next().unwrap();
                let decode: Vec<Option<u32>> = fields
                    .map(|f| match u32::from_str_radix(f, 16).unwrap() {
                        0xffff => None,
                        v => Some(v),
                    })
                    .collect();
                assert_eq!(decode.len(), 256);
                let mut encode: HashMap<u32, Vec<u8>> = HashMap::new();
                for (b, c) in decode.iter().enumerate() {
                    if let Some(c) = c {
                        encode.entry(*c).or_default().push(b as u8);
                    }
                }
                Codec { name, encoding: encoding_by_name(name), decode, encode }
            })
            .collect()
    })
}

/// Collects the items of a decoder, at most `limit`.
fn items<T>(
    iterator: &mut dyn Iterator<Item = Result<T, keramics_core::ErrorTrace>>,
    limit: usize,
) -> Result<Vec<Result<T, ()>>, Stop> {
    let mut result = Vec::new();
    while let Some(item) = iterator.next() {
        result.push(item.map_err(|_| ()));
        if result.len() > limit {
            return fail(format!("more than {} items", limit));
        }
    }
    // The end of the sequence is final.
    if iterator.next().is_some() {
        return fail("an item after the end of the sequence");
    }
    Ok(result)
}

/// Every encoding and byte value.
fn single_byte_decode_all(g: &mut Gen) -> CaseResult {
    let k = g.below_or(36 * 256 - 1) as usize;
    let codec = &codecs()[k / 256];
    let byte = (k % 256) as u8;
    if codec.name == "Ascii" && byte >= 0x80 {
        // Not ASCII: the result is not specified.
        let data = [byte];
        items(&mut *new_character_decoder(&codec.encoding, &data), 2)?;
        return Ok(());
    }
    let data = [byte];
    let got = items(&mut *new_character_decoder(&codec.encoding, &data), 2)?;
    let want = vec![codec.decode[byte as usize].ok_or(())];
    g.nontrivial();
    g.class_if(want[0].is_err(), "undefined byte");
    g.note(|| format!("{} 0x{:02x} -> {:?}", codec.name, byte, got));
    check_eq!(got, want, "{} decode of 0x{:02x}", codec.name, byte);
    if let Ok(code_point) = want[0] {
        let code_points = [code_point];
        let encoded = items(&mut *new_character_encoder(&codec.encoding, &code_points), 2)?;
        check!(encoded.len() == 1, "{} encode of U+{:04x}: {:?}", codec.name, code_point, encoded);
        match &encoded[0] {
            Ok(bytes) if bytes.len() == 1 && codec.encode[&code_point].contains(&bytes[0]) => {}
            other => return fail(format!("{} encode of U+{:04x}: {:02x?} expected {:02x?}", codec.name, code_point, other, codec.encode[&code_point])),
        }
    }
    Ok(())
}

/// Every encoding and block of 256 code points up to U+10FFFF (and beyond).
fn single_byte_encode_all(g: &mut Gen) -> CaseResult {
    let blocks = 0x1110;
    let k = g.below_or(36 * blocks - 1);
    let codec = &codecs()[(k / blocks) as usize];
    let first = ((k % blocks) << 8) as u32;
    let code_points: Vec<u32> = (first..first + 256).collect();
    let got = items(&mut *new_character_encoder(&codec.encoding, &code_points), 300)?;
    check!(got.len() == 256, "{} encode of U+{:04x}..: {} items for 256 code points", codec.name, first, got.len());
    let mut mapped = 0;
    for (i, item) in got.iter().enumerate() {
        let c = code_points[i];
        let defined = match codec.encode.get(&c) {
            Some(bytes) if codec.name != "Ascii" || c < 0x80 => Some(bytes),
            _ => None,
        };
        match (item, defined) {
            (Ok(bytes), Some(want)) if bytes.len() == 1 && want.contains(&bytes[0]) => mapped += 1,
            (Err(()), None) => {}
            _ => return fail(format!("{} encode of U+{:04x}: {:02x?} expected one of {:02x?}", codec.name, c, item, defined)),
        }
    }
    if mapped > 0 || first < 0x3000 || g.tier_thorough {
        g.nontrivial();
    }
    g.class_if(mapped > 0, "block with mapped code points");
    g.note(|| format!("{} encode U+{:04x}..+256, {} mapped", codec.name, first, mapped));
    Ok(())
}

/// Sequences: every byte decodes independent of its neighbours, and code points encode likewise.
fn single_byte_sequences(g: &mut Gen) -> CaseResult {
    let codec = g.pick(codecs());
    let len = g.length(600, 16);
    let ascii = codec.name == "Ascii";
    let mostly_valid = g.chance(3, 4);
    let raw = g.blob(len);
    let data: Vec<u8> = raw
        .iter()
        .map(|b| {
            let b = if ascii { b & 0x7f } else { *b };
            if mostly_valid && codec.decode[b as usize].is_none() { b'x' } else { b }
        })
        .collect();
    let got = items(&mut *new_character_decoder(&codec.encoding, &data), len + 1)?;
    let want: Vec<Result<u32, ()>> = data.iter().map(|b| codec.decode[*b as usize].ok_or(())).collect();
    check_eq!(got, want, "{} decode of {}", codec.name, hex(&data));
    if want.iter().all(|c| c.is_ok()) {
        let code_points: Vec<u32> = want.iter().map(|c| c.unwrap()).collect();
        let encoded = items(&mut *new_character_encoder(&codec.encoding, &code_points), len + 1)?;
        check!(encoded.iter().all(|e| e.is_ok()), "{} encode of decoded {}", codec.name, hex(&data));
        let bytes: Vec<u8> = encoded.into_iter().flat_map(|e| e.unwrap()).collect();
        check!(bytes.len() == data.len(), "{} round trip size {} expected {}", codec.name, bytes.len(), data.len());
        for (i, b) in bytes.iter().enumerate() {
            check!(
                *b == data[i] || codec.encode[&code_points[i]].contains(b),
                "{} round trip at {}: 0x{:02x} expected 0x{:02x}", codec.name, i, b, data[i]
            );
        }
        g.class("round trip");
    } else {
        g.class("with undefined bytes");
    }
    if data.iter().any(|b| *b >= 0x80) || ascii && len > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{} {} bytes: {}", codec.name, len, hex(&data)));
    Ok(())
}

/// Sequences of code points with ones that cannot be encoded in between.
fn single_byte_encode_sequences(g: &mut Gen) -> CaseResult {
    let codec = g.pick(codecs());
    let len = g.usize(0, 40);
    let mut code_points = Vec::new();
    for _ in 0..len {
        let c = match g.below_or(3) {
            0 | 1 => codec.decode[g.u8() as usize].unwrap_or(0x41),
            2 => g.below_or(0x2fff) as u32,
            _ => g.edgy(32) as u32,
        };
        code_points.push(c);
    }
    let got = items(&mut *new_character_encoder(&codec.encoding, &code_points), len + 1)?;
    check!(got.len() == len, "{} encode: {} items for {} code points {:04x?}", codec.name, got.len(), len, code_points);
    let mut errors = 0;
    for (i, item) in got.iter().enumerate() {
        let c = code_points[i];
        let defined = codec.encode.get(&c).filter(|_| codec.name != "Ascii" || c < 0x80);
        match (item, defined) {
            (Ok(bytes), Some(want)) if bytes.len() == 1 && want.contains(&bytes[0]) => {}
            (Err(()), None) => errors += 1,
            _ => return fail(format!("{} encode of {:04x?} at {}: {:02x?} expected one of {:02x?}", codec.name, code_points, i, item, defined)),
        }
    }
    if len > 1 {
        g.nontrivial();
    }
    g.class_if(errors > 0 && errors < len, "mixed");
    g.class_if(errors == 0 && len > 0, "all encodable");
    g.note(|| format!("{} {:04x?}", codec.name, code_points));
    Ok(())
}

/// A size around 2^16 bytes, or more.
pub fn large_size(g: &mut Gen) -> usize {
    match g.below_or(3) {
        0 => g.usize(65_530, 65_545),
        1 => g.usize(32_760, 32_775),
        2 => g.usize(131_065, 131_080),
        _ => g.usize(40_000, 200_000),
    }
}

/// Sequences of tens of thousands of characters.
fn single_byte_large(g: &mut Gen) -> CaseResult {
    let codec = g.pick(codecs());
    let len = large_size(g);
    let mut data = vec![0u8; len];
    Rng(g.u64()).fill(&mut data);
    let ascii = codec.name == "Ascii";
    for b in data.iter_mut() {
        if ascii {
            *b &= 0x7f;
        }
        if codec.decode[*b as usize].is_none() {
            *b = b'x';
        }
    }
    let got = items(&mut *new_character_decoder(&codec.encoding, &data), len + 1)?;
    check!(got.len() == len, "{} decode of {} bytes: {} items", codec.name, len, got.len());
    let code_points: Vec<u32> = data.iter().map(|b| codec.decode[*b as usize].unwrap()).collect();
    for (i, c) in code_points.iter().enumerate() {
        check!(got[i] == Ok(*c), "{} decode of 0x{:02x} at {} of {}: {:?} expected {:04x}", codec.name, data[i], i, len, got[i], c);
    }
    let encoded = items(&mut *new_character_encoder(&codec.encoding, &code_points), len + 1)?;
    check!(encoded.len() == len, "{} encode of {} code points: {} items", codec.name, len, encoded.len());
    for (i, e) in encoded.iter().enumerate() {
        let good = matches!(e, Ok(v) if v.len() == 1 && codec.encode[&code_points[i]].contains(&v[0]));
        check!(good, "{} encode of {:04x} at {} of {}: {:02x?}", codec.name, code_points[i], i, len, e);
    }
    g.nontrivial();
    g.note(|| format!("{} {} bytes", codec.name, len));
    Ok(())
}

pub const C10: Property = Property {
    id: "C10",
    rule: "A case decodes and/or encodes bytes or code points in one of 36 single byte encodings and compares with the mapping table of an independent implementation (Python codecs; recorded tables for MacCeltic, MacGaelic, MacDingbats). Non-trivial: the mapping of a single byte, a block of code points that has mapped ones (all blocks in the thorough tier), or a sequence with non-ASCII bytes or more than one code point.",
    assumptions: &[
        "ASCII decoding of bytes >= 0x80 is not specified",
        "a code point with two byte values (MacArabic, MacFarsi) may encode to either",
    ],
    facets: &[
        Facet { name: "decode_all_bytes", work: Work::Exhaustive(36 * 256), case: single_byte_decode_all },
        Facet { name: "encode_all_code_points", work: Work::Exhaustive(36 * 0x1110), case: single_byte_encode_all },
        Facet { name: "sequences", work: Work::Random(60_000, 2_000_000), case: single_byte_sequences },
        Facet { name: "encode_sequences", work: Work::Random(60_000, 2_000_000), case: single_byte_encode_sequences },
        Facet { name: "large", work: Work::Random(60, 2_000), case: single_byte_large },
    ],
};

struct Cp932 {
    /// Two byte characters.
    double: Vec<(u16, u32)>,
    decode: HashMap<u16, u32>,
    encode: HashMap<u32, Vec<u8>>,
}

fn cp932() -> &'static Cp932 {
    static TABLE: OnceLock<Cp932> = OnceLock::new();
    TABLE.get_or_init(|| {
        let mut t = Cp932 { double: Vec::new(), decode: HashMap::new(), encode: HashMap::new() };
        for c in 0..0x80u32 {
            t.encode.insert(c, vec![c as u8]);
        }
        for b in 0xa1..0xe0u32 {
            t.encode.insert(0xff61 + b - 0xa1, vec![b as u8]);
        }
        for line in include_str!("../data/cp932.txt").lines() {
            let f: Vec<&str> = line.split(' ').collect();
            let bytes = u16::from_str_radix(f[0], 16).unwrap();
            let c = u32::from_str_radix(f[1], 16).unwrap();
            t.double.push((bytes, c));
            t.decode.insert(bytes, c);
            if f[2] == "1" {
                t.encode.insert(c, bytes.to_be_bytes().to_vec());
            }
        }
        t
    })
}

/// Code points of which the encoding is not specified (private use, Microsoft best fit variants
/// and C1 controls).
fn cp932_unspecified(c: u32) -> bool {
    (0xe000..0xf900).contains(&c) || matches!(c, 0x80..=0xff | 0x2010..=0x22ff | 0x3000..=0x30ff) && !cp932().encode.contains_key(&c)
}

fn cp932_lead(b: u8) -> bool {
    matches!(b, 0x81..=0x9f | 0xe0..=0xfc)
}

/// Every lead and trail byte.
fn cp932_decode_all(g: &mut Gen) -> CaseResult {
    let k = g.below_or(0xffff) as u16;
    let t = cp932();
    let bytes = k.to_be_bytes();
    let got = items(&mut new_decoder_932(&bytes), 3)?;
    let lead = bytes[0];
    if cp932_lead(lead) {
        if (0xf0..=0xf9).contains(&lead) {
            // User defined characters: not specified.
            return Ok(());
        }
        match t.decode.get(&k) {
            Some(c) => {
                check_eq!(got, vec![Ok(*c)], "decode of {:04x}", k);
                g.class("character");
            }
            None => {
                check!(got.first() == Some(&Err(())), "decode of undefined {:04x}: {:?}", k, got);
                g.class("undefined");
            }
        }
        g.nontrivial();
    } else if lead < 0x80 || (0xa1..0xe0).contains(&lead) {
        let want = if lead < 0x80 { lead as u32 } else { 0xff61 + (lead as u32 - 0xa1) };
        check!(got.first() == Some(&Ok(want)), "decode of {:04x}: {:?}", k, got);
        if bytes[1] < 0x80 {
            check_eq!(got, vec![Ok(want), Ok(bytes[1] as u32)], "decode of {:04x}", k);
        }
        g.class("single byte");
    }
    g.note(|| format!("{:04x} -> {:04x?}", k, got));
    Ok(())
}

fn new_decoder_932(bytes: &[u8]) -> CharacterDecoder<'_> {
    new_character_decoder(&CharacterEncoding::Windows932, bytes)
}

fn cp932_encode_all(g: &mut Gen) -> CaseResult {
    let t = cp932();
    let first = (g.below_or(0x110f) << 8) as u32;
    let code_points: Vec<u32> = (first..first + 256).collect();
    let got = items(&mut *new_character_encoder(&CharacterEncoding::Windows932, &code_points), 300)?;
    check!(got.len() == 256, "encode of U+{:04x}..: {} items for 256 code points", first, got.len());
    let mut mapped = 0;
    for (i, item) in got.iter().enumerate() {
        let c = code_points[i];
        match (item, t.encode.get(&c)) {
            (Ok(bytes), Some(want)) if bytes == want => mapped += 1,
            (Err(()), None) => {}
            (_, None) if cp932_unspecified(c) => {}
            (item, want) => return fail(format!("encode of U+{:04x}: {:02x?} expected {:02x?}", c, item, want)),
        }
    }
    g.nontrivial();
    g.class_if(mapped > 0, "block with mapped code points");
    g.note(|| format!("encode U+{:04x}..+256, {} mapped", first, mapped));
    Ok(())
}

fn cp932_sequences(g: &mut Gen) -> CaseResult {
    let t = cp932();
    let n = g.usize(0, 60);
    let mut data = Vec::new();
    let mut want = Vec::new();
    let mut canonical = true;
    for _ in 0..n {
        match g.below_or(4) {
            0 => {
                let b = g.below_or(0x7f) as u8;
                data.push(b);
                want.push(b as u32);
            }
            1 => {
                let b = g.range(0xa1, 0xdf) as u8;
                data.push(b);
                want.push(0xff61 + b as u32 - 0xa1);
            }
            _ => {
                let (bytes, c) = *g.pick(&t.double);
                data.extend_from_slice(&bytes.to_be_bytes());
                want.push(c);
                canonical &= t.encode.get(&c) == Some(&bytes.to_be_bytes().to_vec());
            }
        }
    }
    let ok: Vec<Result<u32, ()>> = want.iter().map(|c| Ok(*c)).collect();
    let tail = g.below_or(7);
    let mut errors = 0;
    let full = data.clone();
    if tail == 0 {
        // A lead byte without its trail byte at the end.
        data.push(*g.pick(&[0x81u8, 0x88, 0x9f, 0xe0, 0xea, 0xed, 0xfa, 0xfc]));
        errors = 1;
    }
    let got = items(&mut new_decoder_932(&data), data.len() + 1)?;
    let mut expected = ok.clone();
    for _ in 0..errors {
        expected.push(Err(()));
    }
    check_eq!(got, expected, "decode of {}", hex(&data));
    let encoded = items(&mut *new_character_encoder(&CharacterEncoding::Windows932, &want), n + 1)?;
    let bytes: Vec<u8> = match encoded.into_iter().collect::<Result<Vec<Vec<u8>>, ()>>() {
        Ok(v) => v.into_iter().flatten().collect(),
        Err(_) => return fail(format!("encode of {:04x?} failed", want)),
    };
    if canonical {
        check_eq!(hex(&bytes), hex(&full), "encode of {:04x?}", want);
        g.class("canonical");
    } else {
        let back = items(&mut new_decoder_932(&bytes), bytes.len() + 1)?;
        check_eq!(back, ok, "decode of encoded {:04x?}", want);
        g.class("duplicate encodings");
    }
    g.class_if(errors > 0, "truncated");
    if n > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{} -> {:04x?}", hex(&data), want));
    Ok(())
}

/// Arbitrary bytes: the characters before the first invalid sequence are exact, and decoding ends.
fn cp932_arbitrary(g: &mut Gen) -> CaseResult {
    let t = cp932();
    let len = g.length(200, 8);
    let mut data = g.blob(len);
    if g.bool() {
        for b in data.iter_mut() {
            if g.chance(1, 4) {
                *b = *g.pick(&[0x81u8, 0x82, 0x83, 0x84, 0x87, 0x88, 0x9f, 0xe0, 0xea, 0xed, 0xee, 0xfa, 0xfb, 0xfc, 0x40, 0x7f, 0x80, 0xa0]);
            }
        }
    }
    let mut want = Vec::new();
    let mut i = 0;
    let mut valid = true;
    let mut specified = true;
    while i < data.len() {
        let b = data[i];
        if b < 0x80 {
            want.push(Ok(b as u32));
            i += 1;
        } else if (0xa1..0xe0).contains(&b) {
            want.push(Ok(0xff61 + (b as u32 - 0xa1)));
            i += 1;
        } else if (0xf0..=0xf9).contains(&b) {
            specified = false;
            break;
        } else if cp932_lead(b) {
            match data.get(i + 1).and_then(|t2| t.decode.get(&u16::from_be_bytes([b, *t2]))) {
                Some(c) => want.push(Ok(*c)),
                None => {
                    valid = false;
                    break;
                }
            }
            i += 2;
        } else {
            // 0x80, 0xa0, 0xfd to 0xff have no agreed upon mapping.
            specified = false;
            break;
        }
    }
    let got = items(&mut new_decoder_932(&data), data.len() + 1)?;
    check!(got.len() >= want.len() && got[..want.len()] == want[..], "decode of {}: got {:?} expected to start with {:?}", hex(&data), got, want);
    if specified && valid {
        check!(got.len() == want.len(), "decode of {}: {} items expected {}", hex(&data), got.len(), want.len());
    } else if !valid {
        check!(got.get(want.len()) == Some(&Err(())), "decode of {}: item {} is {:?} expected an error", hex(&data), want.len(), got.get(want.len()));
        g.class("invalid");
    }
    if len > 1 {
        g.nontrivial();
    }
    g.note(|| hex(&data));
    Ok(())
}

/// Text of tens of thousands of characters.
fn cp932_large(g: &mut Gen) -> CaseResult {
    let t = cp932();
    let len = large_size(g);
    let mut rng = Rng(g.u64());
    let mut data = Vec::new();
    let mut want = Vec::new();
    while data.len() < len {
        let v = rng.next();
        match v % 4 {
            0 => {
                data.push((v >> 8) as u8 & 0x7f);
                want.push((v >> 8) as u32 & 0x7f);
            }
            1 => {
                let b = 0xa1 + (v >> 8) as u8 % 63;
                data.push(b);
                want.push(0xff61 + b as u32 - 0xa1);
            }
            _ => {
                let (bytes, c) = t.double[(v >> 8) as usize % t.double.len()];
                if t.encode.get(&c) == Some(&bytes.to_be_bytes().to_vec()) {
                    data.extend_from_slice(&bytes.to_be_bytes());
                    want.push(c);
                }
            }
        }
    }
    let got = items(&mut new_decoder_932(&data), data.len() + 1)?;
    check!(got.len() == want.len(), "decode of {} bytes: {} items expected {}", data.len(), got.len(), want.len());
    for (i, c) in want.iter().enumerate() {
        check!(got[i] == Ok(*c), "decode of item {} of {}: {:?} expected {:04x}", i, want.len(), got[i], c);
    }
    let encoded = items(&mut *new_character_encoder(&CharacterEncoding::Windows932, &want), want.len() + 1)?;
    let bytes: Vec<u8> = match encoded.into_iter().collect::<Result<Vec<Vec<u8>>, ()>>() {
        Ok(v) => v.into_iter().flatten().collect(),
        Err(_) => return fail(format!("encode of {} code points failed", want.len())),
    };
    check!(bytes == data, "encode of {} code points differs at byte {:?}", want.len(), bytes.iter().zip(data.iter()).position(|(a, b)| a != b));
    g.nontrivial();
    g.note(|| format!("{} bytes, {} characters", data.len(), want.len()));
    Ok(())
}

pub const C11: Property = Property {
    id: "C11",
    rule: "A case decodes or encodes Windows-932 text and compares with the mapping table of an independent implementation (Python cp932). Non-trivial: a two byte character or undefined two byte sequence, a block of code points, or a sequence of more than one character.",
    assumptions: &[
        "lead bytes 0xf0 to 0xf9 (user defined characters) and single bytes 0x80, 0xa0, 0xfd to 0xff are not specified",
        "which bytes follow an invalid sequence is not specified, only that decoding ends",
    ],
    facets: &[
        Facet { name: "decode_all_pairs", work: Work::Exhaustive(0x10000), case: cp932_decode_all },
        Facet { name: "encode_all_code_points", work: Work::Exhaustive(0x1110), case: cp932_encode_all },
        Facet { name: "sequences", work: Work::Random(60_000, 2_000_000), case: cp932_sequences },
        Facet { name: "arbitrary", work: Work::Random(60_000, 2_000_000), case: cp932_arbitrary },
        Facet { name: "large", work: Work::Random(60, 2_000), case: cp932_large },
    ],
};

/// Result of decoding UTF-8 bytes: the code points before the first error and whether there is one.
fn utf8_reference(data: &[u8]) -> (Vec<u32>, bool) {
    match std::str::from_utf8(data) {
        Ok(s) => (s.chars().map(|c| c as u32).collect(), false),
        Err(e) => {
            let s = std::str::from_utf8(&data[..e.valid_up_to()]).unwrap();
            (s.chars().map(|c| c as u32).collect(), true)
        }
    }
}

fn utf8_compare(data: &[u8]) -> Result<bool, Stop> {
    let (want, invalid) = utf8_reference(data);
    let got = items(&mut *new_character_decoder(&CharacterEncoding::Utf8, data), data.len() + 1)?;
    check!(
        got.len() >= want.len() && got.iter().zip(want.iter()).all(|(a, b)| *a == Ok(*b)),
        "decode of {}: got {:04x?} expected to start with {:04x?}", hex(data), got, want
    );
    if invalid {
        check!(
            got.get(want.len()) == Some(&Err(())),
            "decode of {}: item {} is {:04x?} expected an error", hex(data), want.len(), got.get(want.len())
        );
    } else {
        check!(got.len() == want.len(), "decode of {}: {} items expected {}", hex(data), got.len(), want.len());
    }
    Ok(invalid)
}

/// Every code point: encodes as the standard prescribes and decodes to itself.
fn utf8_code_points(g: &mut Gen) -> CaseResult {
    let first = (g.below_or(0x111f) << 8) as u32;
    for c in first..first + 256 {
        let code_points = [c];
        let encoded = items(&mut *new_character_encoder(&CharacterEncoding::Utf8, &code_points), 2)?;
        match char::from_u32(c) {
            Some(ch) => {
                let mut buffer = [0u8; 4];
                let want = ch.encode_utf8(&mut buffer).as_bytes().to_vec();
                check_eq!(encoded, vec![Ok(want.clone())], "encode of U+{:04x}", c);
                let got = items(&mut *new_character_decoder(&CharacterEncoding::Utf8, &want), 2)?;
                check_eq!(got, vec![Ok(c)], "decode of {}", hex(&want));
            }
            None => check_eq!(encoded, vec![Err(())], "encode of U+{:04x}", c),
        }
    }
    g.nontrivial();
    g.note(|| format!("U+{:04x}..+256", first));
    Ok(())
}

/// Every first and second byte, with third and fourth bytes at the boundaries of ranges.
fn utf8_short_sequences(g: &mut Gen) -> CaseResult {
    const EDGES: [u8; 10] = [0x00, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    let k = g.below_or(0xffff) as u16;
    let b = k.to_be_bytes();
    let mut invalid = 0;
    utf8_compare(&b[..1])?;
    invalid += utf8_compare(&b)? as u32;
    for c in EDGES {
        invalid += utf8_compare(&[b[0], b[1], c])? as u32;
        if b[0] >= 0xf0 {
            for d in EDGES {
                invalid += utf8_compare(&[b[0], b[1], c, d])? as u32;
            }
        }
    }
    if b[0] >= 0x80 {
        g.nontrivial();
    }
    g.class_if(invalid > 0, "with invalid sequences");
    g.note(|| format!("{:04x} and up to 2 more bytes, {} invalid", k, invalid));
    Ok(())
}

fn utf8_text(g: &mut Gen) -> Vec<u8> {
    let n = g.usize(0, 60);
    let mut data = Vec::new();
    for _ in 0..n {
        let c = match g.below_or(5) {
            0 => g.below_or(0x7f),
            1 => g.range(0x80, 0x7ff),
            2 => g.range(0x800, 0xffff),
            3 => g.range(0x10000, 0x10ffff),
            _ => *g.pick(&[0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]),
        } as u32;
        let ch = char::from_u32(c).unwrap_or('\u{fffd}');
        let mut buffer = [0u8; 4];
        data.extend_from_slice(ch.encode_utf8(&mut buffer).as_bytes());
    }
    data
}

fn utf8_sequences(g: &mut Gen) -> CaseResult {
    let mut data = utf8_text(g);
    match g.below_or(5) {
        0 | 1 => {}
        2 => {
            let n = g.usize(0, data.len());
            data.truncate(n);
        }
        3 => {
            if !data.is_empty() {
                let i = g.usize(0, data.len() - 1);
                data[i] = g.u8();
            }
        }
        4 => {
            let i = g.usize(0, data.len());
            let n = g.usize(1, 4);
            let inserted: Vec<u8> = (0..n)
                .map(|_| *g.pick(&[0x80u8, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xff]))
                .collect();
            data.splice(i..i, inserted);
        }
        _ => {
            let len = g.length(40, 4);
            data = g.bytes(len);
        }
    }
    let invalid = utf8_compare(&data)?;
    g.class(if invalid { "invalid" } else { "valid" });
    if data.iter().any(|b| *b >= 0x80) {
        g.nontrivial();
    }
    g.note(|| hex(&data));
    Ok(())
}

fn utf8_encode_sequences(g: &mut Gen) -> CaseResult {
    let n = g.usize(0, 30);
    let code_points: Vec<u32> = (0..n)
        .map(|_| match g.below_or(3) {
            0 => g.edgy(21) as u32,
            1 => g.range(0xd700, 0xe0ff) as u32,
            2 => g.edgy(16) as u32,
            _ => g.edgy(32) as u32,
        })
        .collect();
    let got = items(&mut *new_character_encoder(&CharacterEncoding::Utf8, &code_points), n + 1)?;
    let want: Vec<Result<Vec<u8>, ()>> = code_points
        .iter()
        .map(|c| match char::from_u32(*c) {
            Some(ch) => Ok(ch.to_string().into_bytes()),
            None => Err(()),
        })
        .collect();
    check_eq!(got, want, "encode of {:04x?}", code_points);
    if n > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{:04x?}", code_points));
    Ok(())
}

/// Text of tens of thousands of characters, with at most one changed byte.
fn utf8_large(g: &mut Gen) -> CaseResult {
    let len = large_size(g);
    let mut rng = Rng(g.u64());
    let mut text = String::new();
    while text.len() < len {
        let v = rng.next();
        let c = match v % 5 {
            0 | 1 => (v >> 8) as u32 & 0x7f,
            2 => 0x80 + (v >> 8) as u32 % 0x780,
            3 => 0x800 + (v >> 8) as u32 % 0xf800,
            _ => 0x10000 + (v >> 8) as u32 % 0x100000,
        };
        text.push(char::from_u32(c).unwrap_or('x'));
    }
    let code_points: Vec<u32> = text.chars().map(|c| c as u32).collect();
    let encoded = items(&mut *new_character_encoder(&CharacterEncoding::Utf8, &code_points), code_points.len() + 1)?;
    let bytes: Vec<u8> = match encoded.into_iter().collect::<Result<Vec<Vec<u8>>, ()>>() {
        Ok(v) => v.into_iter().flatten().collect(),
        Err(_) => return fail(format!("encode of {} code points failed", code_points.len())),
    };
    let mut data = text.into_bytes();
    check!(bytes == data, "encode of {} code points differs at byte {:?}", code_points.len(), bytes.iter().zip(data.iter()).position(|(a, b)| a != b));
    if g.bool() {
        let i = data.len() - 1 - g.usize(0, data.len() - 1);
        data[i] = g.u8();
    }
    let (want, invalid) = utf8_reference(&data);
    let got = items(&mut *new_character_decoder(&CharacterEncoding::Utf8, &data), data.len() + 1)?;
    check!(got.len() >= want.len() + invalid as usize && (invalid || got.len() == want.len()), "decode of {} bytes: {} items expected {}", data.len(), got.len(), want.len());
    for (i, c) in want.iter().enumerate() {
        check!(got[i] == Ok(*c), "decode of item {} of {}: {:?} expected {:04x}", i, want.len(), got[i], c);
    }
    if invalid {
        check!(got[want.len()] == Err(()), "decode of {} bytes: item {} is {:04x?} expected an error", data.len(), want.len(), got[want.len()]);
    }
    g.class(if invalid { "invalid" } else { "valid" });
    g.nontrivial();
    g.note(|| format!("{} bytes, {} characters", data.len(), want.len()));
    Ok(())
}

pub const C12: Property = Property {
    id: "C12",
    rule: "A case decodes UTF-8 bytes (valid text, mutated text, all short sequences) or encodes code points and compares with the Rust standard library. Non-trivial: bytes >= 0x80 are involved, or more than one code point is encoded.",
    assumptions: &["what follows the first invalid sequence is not specified, only that decoding ends"],
    facets: &[
        Facet { name: "all_code_points", work: Work::Exhaustive(0x1120), case: utf8_code_points },
        Facet { name: "short_sequences", work: Work::Exhaustive(0x10000), case: utf8_short_sequences },
        Facet { name: "sequences", work: Work::Random(150_000, 6_000_000), case: utf8_sequences },
        Facet { name: "encode_sequences", work: Work::Random(50_000, 2_000_000), case: utf8_encode_sequences },
        Facet { name: "large", work: Work::Random(60, 2_000), case: utf8_large },
    ],
};

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn base64_encode(data: &[u8], padding: bool) -> Vec<u8> {
    let mut out = Vec::new();
    let mut bits = 0u32;
    let mut n = 0;
    for b in data {
        bits = bits << 8 | *b as u32;
        n += 8;
        while n >= 6 {
            n -= 6;
            out.push(ALPHABET[(bits >> n & 63) as usize]);
        }
        bits &= 0xff;
    }
    if n > 0 {
        out.push(ALPHABET[(bits << (6 - n) & 63) as usize]);
    }
    if padding {
        while out.len() % 4 != 0 {
            out.push(b'=');
        }
    }
    out
}

fn base64_stream_read(data: &[u8], offset: usize, skip: bool) -> Result<Result<Vec<u8>, ()>, Stop> {
    let mut stream = Base64Stream::new(data, offset, skip);
    let mut out = Vec::new();
    loop {
        match stream.get_value() {
            Ok(Some(b)) => out.push(b),
            Ok(None) => break,
            Err(_) => return Ok(Err(())),
        }
        if out.len() > data.len() {
            return fail("more bytes decoded than encoded");
        }
    }
    if let Ok(Some(b)) = stream.get_value() {
        return fail(format!("value 0x{:02x} after the end of the stream", b));
    }
    Ok(Ok(out))
}

fn base64_round_trip(g: &mut Gen) -> CaseResult {
    let len = g.length(400, 3);
    let data = g.blob(len);
    let padding = g.chance(3, 4);
    let encoded = base64_encode(&data, padding);
    let extra = g.usize(0, 20);
    let mut context = Base64Context::new();
    let mut out = vec![0xa5u8; len + extra];
    check!(context.decode(&encoded, &mut out).is_ok(), "decode of {:?} failed", String::from_utf8_lossy(&encoded));
    check_eq!(context.data_size, len, "data size of {:?}", String::from_utf8_lossy(&encoded));
    check_eq!(hex(&out[..len]), hex(&data), "data of {:?}", String::from_utf8_lossy(&encoded));
    check!(out[..len] == data[..], "data of {:?}", String::from_utf8_lossy(&encoded));
    check!(out[len..].iter().all(|b| *b == 0xa5), "decode of {:?} wrote past the data size", String::from_utf8_lossy(&encoded));

    // The context can be used again.
    let len2 = g.usize(0, 9);
    let data2 = g.bytes(len2);
    let mut out2 = vec![0u8; len2];
    let encoded2 = base64_encode(&data2, true);
    check!(context.decode(&encoded2, &mut out2).is_ok(), "second decode of {:?} failed", String::from_utf8_lossy(&encoded2));
    check_eq!((context.data_size, out2), (len2, data2), "second decode");

    // A buffer that is too small is an error.
    if len > 0 {
        let small = g.usize(0, len - 1);
        let mut buffer = vec![0u8; small];
        check!(Base64Context::new().decode(&encoded, &mut buffer).is_err(), "decode of {} bytes into a buffer of {} bytes", len, small);
    }
    g.class(["size mod 3 is 0", "size mod 3 is 1", "size mod 3 is 2"][len % 3]);
    g.class_if(!padding, "without padding");
    if len > 0 {
        g.nontrivial();
    }
    g.note(|| String::from_utf8_lossy(&encoded).to_string());
    Ok(())
}

fn base64_stream(g: &mut Gen) -> CaseResult {
    let len = g.length(200, 3);
    let data = g.blob(len);
    let padding = g.chance(3, 4);
    let encoded = base64_encode(&data, padding);
    let skip = g.chance(3, 4);
    let prefix = g.usize(0, 9);
    let mut text = g.bytes(prefix);
    let mut spaces = 0;
    for (i, b) in encoded.iter().enumerate() {
        if skip {
            let wrap = i % 76 == 75;
            let n = if wrap || g.chance(1, 10) { g.usize(0, 3) } else { 0 };
            for _ in 0..n {
                text.push(*g.pick(b" \n\r\t\x0b"));
                spaces += 1;
            }
        }
        text.push(*b);
    }
    if skip && g.bool() {
        text.push(b'\n');
    }
    let got = base64_stream_read(&text, prefix, skip)?;
    check_eq!(got, Ok(data.clone()), "stream of {:?} at offset {}", String::from_utf8_lossy(&text), prefix);

    // White space that is not to be skipped is an error.
    if !skip && !encoded.is_empty() {
        let body = base64_encode(&data, false);
        let i = g.usize(0, body.len() - 1);
        let mut text = body.clone();
        text.insert(i, *g.pick(b" \n\r\t\x0b"));
        check_eq!(base64_stream_read(&text, 0, false)?, Err(()), "stream of {:?}", String::from_utf8_lossy(&text));
    }
    g.class_if(spaces > 0, "white space");
    g.class_if(prefix > 0, "offset");
    if len > 0 {
        g.nontrivial();
    }
    g.note(|| format!("offset {} {:?}", prefix, String::from_utf8_lossy(&text)));
    Ok(())
}

/// Every byte value that is not of the alphabet, at any place before the padding, is an error.
fn base64_invalid(g: &mut Gen) -> CaseResult {
    let len = g.length(60, 3).max(1);
    let data = g.bytes(len);
    let body = base64_encode(&data, false);
    let full = base64_encode(&data, true);
    let which = g.below_or(3);
    let mut text = full.clone();
    match which {
        0 | 1 => {
            let mut bad = g.u8();
            if ALPHABET.contains(&bad) || bad == b'=' {
                bad = *g.pick(&[0u8, b'-', b'_', b'@', b'[', b'`', b'{', b'.', b':', b',', b'*', 0x80, 0xc1, 0xff, b' ', b'\n']);
            }
            let i = g.usize(0, body.len() - 1);
            if which == 0 {
                text[i] = bad;
            } else {
                text.insert(i, bad);
            }
            g.class("character not of the alphabet");
        }
        2 => {
            // Padding cut short.
            let n = full.len() - body.len();
            if n == 0 {
                return Ok(());
            }
            if n < 2 {
                return Ok(());
            }
            text.pop();
            g.class("incomplete padding");
        }
        _ => {
            // Padding of which the second character is something else.
            if full.len() - body.len() < 2 {
                return Ok(());
            }
            let n = text.len();
            text[n - 1] = *g.pick(b"A=b+\n-\x00");
            if text[n - 1] == b'=' {
                text[n - 1] = b'x';
            }
            g.class("broken padding");
        }
    }
    let mut out = vec![0u8; len + 8];
    check!(
        Base64Context::new().decode(&text, &mut out).is_err(),
        "decode of invalid {:?} succeeded", String::from_utf8_lossy(&text)
    );
    g.nontrivial();
    g.note(|| String::from_utf8_lossy(&text).to_string());
    Ok(())
}

/// Every byte value as a character.
fn base64_alphabet(g: &mut Gen) -> CaseResult {
    let k = g.below_or(256 * 4 - 1);
    let b = (k & 255) as u8;
    let place = (k >> 8) as usize;
    let mut text = *b"AAAA";
    text[place] = b;
    let mut out = [0u8; 3];
    let result = Base64Context::new().decode(&text, &mut out);
    match ALPHABET.iter().position(|a| *a == b) {
        Some(v) => {
            check!(result.is_ok(), "decode of {:?} failed", text);
            let want = ((v as u32) << (18 - 6 * place)).to_be_bytes();
            check_eq!(out[..], want[1..], "decode of {:?}", String::from_utf8_lossy(&text));
        }
        None if b != b'=' => check!(result.is_err(), "decode of {:?} succeeded", text),
        None => {}
    }
    g.nontrivial();
    g.note(|| format!("{:?}", text));
    Ok(())
}

fn base64_arbitrary(g: &mut Gen) -> CaseResult {
    let len = g.usize(0, 60);
    let text: Vec<u8> = (0..len)
        .map(|_| match g.below_or(9) {
            0 => b'=',
            1 => *g.pick(b" \n\r\t\x0b"),
            2 => g.u8(),
            _ => ALPHABET[g.below_or(63) as usize],
        })
        .collect();
    let offset = g.usize(0, len);
    let skip = g.bool();
    let size = g.usize(0, 60);
    let mut out = vec![0u8; size];
    let mut context = Base64Context::new();
    if context.decode(&text, &mut out).is_ok() {
        check!(context.data_size <= size, "data size {} larger than the buffer of {}", context.data_size, size);
        g.class("accepted");
    }
    let _ = base64_stream_read(&text, offset, skip)?;
    g.nontrivial();
    g.note(|| String::from_utf8_lossy(&text).to_string());
    Ok(())
}

/// Data of tens of thousands of bytes.
fn base64_large(g: &mut Gen) -> CaseResult {
    // A size of the encoded data.
    let len = large_size(g) / 4 * 3 + g.usize(0, 2);
    let mut data = vec![0u8; len];
    Rng(g.u64()).fill(&mut data);
    let padding = g.chance(3, 4);
    let encoded = base64_encode(&data, padding);
    let mut context = Base64Context::new();
    let mut out = vec![0xa5u8; len + 3];
    check!(context.decode(&encoded, &mut out).is_ok(), "decode of {} bytes of data failed", len);
    check_eq!(context.data_size, len, "data size");
    check!(out[..len] == data[..], "decode of {} bytes of data differs at {:?}", len, out.iter().zip(data.iter()).position(|(a, b)| a != b));
    check!(out[len..] == [0xa5; 3], "decode wrote past the data size {}", len);
    if len % 3 == 1 && padding {
        let mut broken = encoded.clone();
        *broken.last_mut().unwrap() = b'x';
        check!(Base64Context::new().decode(&broken, &mut out).is_err(), "decode of {} bytes of data with broken padding succeeded", len);
    }
    // As a stream, in lines, at an offset.
    let prefix = if g.bool() { g.usize(0, 9) } else { g.usize(65_530, 66_000) };
    let mut text = vec![b'~'; prefix];
    for line in encoded.chunks(76) {
        text.extend_from_slice(line);
        text.extend_from_slice(b"\r\n");
    }
    match base64_stream_read(&text, prefix, true)? {
        Ok(got) => check!(got == data, "stream of {} bytes of data at offset {}: {} bytes, which differ at {:?}", len, prefix, got.len(), got.iter().zip(data.iter()).position(|(a, b)| a != b)),
        Err(()) => return fail(format!("stream of {} bytes of data at offset {} failed", len, prefix)),
    }
    g.class_if(!padding, "without padding");
    g.class_if(prefix > 0xffff, "large offset");
    g.nontrivial();
    g.note(|| format!("{} bytes, offset {}", len, prefix));
    Ok(())
}

pub const C13: Property = Property {
    id: "C13",
    rule: "A case encodes generated data with an independent Base64 encoder (with or without padding, with white space, at an offset) or makes invalid text, and decodes it. Non-trivial: the data is not empty.",
    assumptions: &["what follows complete padding, and surplus bits in the last character, are not specified"],
    facets: &[
        Facet { name: "round_trip", work: Work::Random(60_000, 3_000_000), case: base64_round_trip },
        Facet { name: "stream", work: Work::Random(60_000, 3_000_000), case: base64_stream },
        Facet { name: "invalid", work: Work::Random(60_000, 3_000_000), case: base64_invalid },
        Facet { name: "alphabet", work: Work::Exhaustive(1024), case: base64_alphabet },
        Facet { name: "arbitrary", work: Work::Random(60_000, 3_000_000), case: base64_arbitrary },
        Facet { name: "large", work: Work::Random(60, 2_000), case: base64_large },
    ],
};
