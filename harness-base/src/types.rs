//! C14 byte strings, C15 UCS-2 and UTF-16 strings, C16 UCS-2 comparison and case folding, C17 UUIDs
//! and C18 integers from bytes.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

use keramics_encodings::CharacterEncoding;
use keramics_types::*;
use pbt::*;

use crate::encodings::{codecs, Codec};

fn hash_of<T: Hash>(value: &T) -> u64 {
    let mut h = DefaultHasher::new();
    value.hash(&mut h);
    h.finish()
}

/// Index of the encoding: 0 is UTF-8, the others are the single byte codecs.
fn pick_encoding(g: &mut Gen) -> Option<&'static Codec> {
    match g.below_or(3) {
        0 | 1 => None,
        _ => Some(g.pick(codecs())),
    }
}

fn encoding_of(codec: Option<&Codec>) -> CharacterEncoding {
    match codec {
        None => CharacterEncoding::Utf8,
        Some(c) => c.encoding.clone(),
    }
}

/// Reference decoding: the code points, or the ones before the first error.
fn decode(codec: Option<&Codec>, data: &[u8]) -> Result<Vec<u32>, Vec<u32>> {
    match codec {
        None => match std::str::from_utf8(data) {
            Ok(s) => Ok(s.chars().map(|c| c as u32).collect()),
            Err(e) => Err(std::str::from_utf8(&data[..e.valid_up_to()]).unwrap().chars().map(|c| c as u32).collect()),
        },
        Some(codec) => {
            let mut out = Vec::new();
            for b in data {
                match codec.decode[*b as usize] {
                    Some(c) if codec.name != "Ascii" || c < 0x80 => out.push(c),
                    _ => return Err(out),
                }
            }
            Ok(out)
        }
    }
}

fn encodable(codec: Option<&Codec>, code_points: &[u32]) -> bool {
    code_points.iter().all(|c| match codec {
        None => char::from_u32(*c).is_some(),
        Some(codec) => codec.encode.contains_key(c) && (codec.name != "Ascii" || *c < 0x80),
    })
}

fn escape(code_points: &[u32]) -> String {
    let mut s = String::new();
    for c in code_points {
        match char::from_u32(*c) {
            Some('\\') => s.push_str("\\\\"),
            Some(ch) => s.push(ch),
            None => s.push_str(&format!("\\{{{:04x}}}", c)),
        }
    }
    s
}

fn gen_code_point(g: &mut Gen, codec: Option<&Codec>) -> u32 {
    let c = match g.below_or(5) {
        0 | 1 => g.range(0x20, 0x7e) as u32,
        2 => 0x5c,
        3 => match codec {
            Some(codec) => codec.decode[g.u8() as usize].unwrap_or(0x61),
            None => g.range(1, 0xd7ff) as u32,
        },
        4 => g.range(0xa0, 0x17f) as u32,
        _ => g.range(1, 0x10ffff) as u32,
    };
    if c == 0 || char::from_u32(c).is_none() { 0x41 } else { c }
}

/// Bytes of a string in the encoding, mostly valid.
fn gen_elements(g: &mut Gen, codec: Option<&'static Codec>) -> Vec<u8> {
    let n = g.usize(0, 16);
    let mut data = Vec::new();
    for _ in 0..n {
        match codec {
            None => {
                let c = gen_code_point(g, None);
                let mut buffer = [0u8; 4];
                data.extend_from_slice(char::from_u32(c).unwrap().encode_utf8(&mut buffer).as_bytes());
            }
            Some(codec) => {
                let b = if g.bool() { g.u8() } else { g.range(0x20, 0x7e) as u8 };
                if codec.decode[b as usize].is_some() && (codec.name != "Ascii" || b < 0x80) && b != 0 {
                    data.push(b);
                } else {
                    data.push(b'.');
                }
            }
        }
    }
    if g.chance(1, 8) {
        let i = g.usize(0, data.len());
        data.insert(i, g.range(1, 255) as u8);
    }
    data
}

struct Text {
    string: ByteString,
    codec: Option<&'static Codec>,
    elements: Vec<u8>,
}

fn verify_text(t: &Text) -> CaseResult {
    check_eq!(hex(&t.string.elements), hex(&t.elements), "elements");
    check_eq!(t.string.encoding, encoding_of(t.codec), "encoding");
    check_eq!(t.string.len(), t.elements.len(), "length");
    check_eq!(t.string.is_empty(), t.elements.is_empty(), "is empty");
    check!(t.string == t.elements.as_slice(), "a string of {} is not equal to its elements", hex(&t.elements));
    let mut other = t.elements.clone();
    other.push(b'x');
    check!(!(t.string == other.as_slice()), "a string of {} is equal to {}", hex(&t.elements), hex(&other));
    if !t.elements.is_empty() {
        check!(!(t.string == &t.elements[1..]), "a string of {} is equal to its tail", hex(&t.elements));
        check!(!(t.string == &t.elements[..t.elements.len() - 1]), "a string of {} is equal to its start", hex(&t.elements));
    }
    if let Ok(s) = std::str::from_utf8(&t.elements) {
        check!(t.string == s, "a string of {} is not equal to its text", hex(&t.elements));
        let upper = s.to_ascii_uppercase();
        check_eq!(t.string == upper.as_str(), s == upper, "equal to {:?}", upper);
    }
    let ascii = t.codec.is_some_and(|c| c.name == "Ascii");
    if ascii && t.elements.iter().any(|b| *b >= 0x80) {
        no_panic(|| t.string.to_string())?;
        return Ok(());
    }
    let got = no_panic(|| t.string.to_string())?;
    match decode(t.codec, &t.elements) {
        Ok(code_points) => {
            check_eq!(got, escape(&code_points), "text of {} in {:?}", hex(&t.elements), t.string.encoding);
            let decoded: Vec<Option<u32>> = t.string.get_character_decoder().map(|r| r.ok()).collect();
            let want: Vec<Option<u32>> = code_points.iter().map(|c| Some(*c)).collect();
            check_eq!(decoded, want, "decoder of {}", hex(&t.elements));
        }
        Err(prefix) => {
            let prefix = escape(&prefix);
            check!(got.starts_with(&prefix), "text of {}: {:?} does not start with {:?}", hex(&t.elements), got, prefix);
            check!(got != prefix, "text of {} does not show the part that cannot be decoded", hex(&t.elements));
        }
    }
    Ok(())
}

fn byte_string_history(g: &mut Gen) -> CaseResult {
    let codec = pick_encoding(g);
    let (string, elements) = match g.below_or(4) {
        0 if codec.is_none() => (ByteString::new(), Vec::new()),
        1 => {
            let data = gen_elements(g, None);
            (ByteString::from(data.as_slice()), data)
        }
        _ => (ByteString::new_with_encoding(&encoding_of(codec)), Vec::new()),
    };
    let codec = if string.encoding == CharacterEncoding::Utf8 { None } else { codec };
    let mut t = Text { string, codec, elements };
    verify_text(&t)?;
    let steps = g.usize(1, 6);
    let mut mixed = 0;
    for _ in 0..steps {
        match g.below_or(3) {
            0 => {
                // Read from a buffer, up to the end-of-string character.
                let mut data = gen_elements(g, t.codec);
                t.elements.extend_from_slice(&data);
                if g.bool() {
                    data.push(0);
                    data.extend_from_slice(&gen_elements(g, t.codec));
                    g.class("read up to end-of-string character");
                }
                g.note(|| format!("read {}", hex(&data)));
                t.string.read_data(&data);
            }
            1 => {
                let n = g.usize(0, 12);
                let code_points: Vec<u32> = (0..n).map(|_| gen_code_point(g, t.codec)).collect();
                g.note(|| format!("extend with code points {:04x?}", code_points));
                let ok = encodable(t.codec, &code_points);
                let before = t.elements.clone();
                let result = no_panic(|| t.string.extend_from_codepoints(&code_points).is_ok())?;
                check_eq!(result, ok, "extend {:?} with {:04x?}", t.string.encoding, code_points);
                extended(&mut t, &before, &code_points, ok)?;
                g.class_if(!ok, "cannot be encoded");
            }
            _ => {
                let other_codec = if g.chance(1, 3) { t.codec } else { pick_encoding(g) };
                let data = gen_elements(g, other_codec);
                let mut other = ByteString::new_with_encoding(&encoding_of(other_codec));
                other.read_data(&data);
                check_eq!(hex(&other.elements), hex(&data), "read data");
                g.note(|| format!("extend {:?} with {:?} {}", t.string.encoding, other.encoding, hex(&data)));
                let before = t.elements.clone();
                let result = no_panic(|| t.string.extend(&other).is_ok())?;
                if t.string.encoding == other.encoding {
                    check!(result, "extend with the same encoding failed");
                    t.elements.extend_from_slice(&data);
                } else {
                    mixed += 1;
                    if other_codec.is_some_and(|c| c.name == "Ascii") && data.iter().any(|b| *b >= 0x80) {
                        t.elements = t.string.elements.clone();
                        continue;
                    }
                    match decode(other_codec, &data) {
                        Ok(code_points) => {
                            let ok = encodable(t.codec, &code_points);
                            check_eq!(result, ok, "extend {:?} with {:?} {}", t.string.encoding, other.encoding, hex(&data));
                            extended(&mut t, &before, &code_points, ok)?;
                            g.class_if(ok && !code_points.is_empty(), "converted between encodings");
                        }
                        Err(_) => {
                            check!(!result, "extend with {} that cannot be decoded succeeded", hex(&data));
                            check!(t.string.elements.starts_with(&before), "a failed extend changed the existing elements");
                            t.elements = t.string.elements.clone();
                            g.class("cannot be decoded");
                        }
                    }
                }
                check_eq!(hex(&other.elements), hex(&data), "the other string after extend");
            }
        }
        verify_text(&t)?;
    }
    if steps > 1 && t.elements.len() > 1 || mixed > 0 {
        g.nontrivial();
    }
    Ok(())
}

/// Checks a string that was extended with code points.
fn extended(t: &mut Text, before: &[u8], code_points: &[u32], ok: bool) -> CaseResult {
    check!(t.string.elements.starts_with(before), "extend changed the existing elements");
    if ok {
        let tail = &t.string.elements[before.len()..];
        match decode(t.codec, tail) {
            Ok(back) => check_eq!(back, code_points.to_vec(), "code points of the extension"),
            Err(_) => return fail(format!("the extension {} cannot be decoded", hex(tail))),
        }
    }
    t.elements = t.string.elements.clone();
    Ok(())
}

fn byte_string_conversions(g: &mut Gen) -> CaseResult {
    let n = g.usize(0, 30);
    let mut text = String::new();
    for _ in 0..n {
        let c = if g.chance(1, 12) { 0 } else { gen_code_point(g, None) };
        text.push(char::from_u32(c).unwrap());
    }
    let data = text.as_bytes().to_vec();
    let cut = data.iter().position(|b| *b == 0).unwrap_or(data.len());
    let strings = [
        ByteString::from(data.as_slice()),
        ByteString::from(&data),
        ByteString::from(text.as_str()),
        ByteString::from(&text),
    ];
    for s in strings.iter() {
        let t = Text { string: s.clone(), codec: None, elements: data[..cut].to_vec() };
        verify_text(&t)?;
    }
    // Comparison, equality and hash follow the elements.
    let mut other = data[..cut].to_vec();
    match g.below_or(3) {
        0 => {}
        1 => {
            let k = g.usize(0, other.len());
            other.truncate(k);
        }
        2 => other.push(b'z'),
        _ => {
            if !other.is_empty() {
                let i = g.usize(0, other.len() - 1);
                other[i] = g.range(1, 255) as u8;
            }
        }
    }
    let a = &strings[0];
    let b = ByteString::from(other.as_slice());
    let want = data[..cut].cmp(&other);
    check_eq!(a.cmp(&b), want, "order of {} and {}", hex(&data[..cut]), hex(&other));
    check_eq!(b.cmp(a), want.reverse(), "order of {} and {}", hex(&other), hex(&data[..cut]));
    check_eq!(a.partial_cmp(&b), Some(want), "partial order");
    check_eq!(*a == b, want == Ordering::Equal, "equality of {} and {}", hex(&data[..cut]), hex(&other));
    if want == Ordering::Equal {
        check_eq!(hash_of(a), hash_of(&b), "hash");
    }
    g.class_if(cut < data.len(), "end-of-string character");
    if n > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{:?}", text));
    Ok(())
}

/// Strings of tens of thousands of elements.
fn byte_string_large(g: &mut Gen) -> CaseResult {
    let codec = pick_encoding(g);
    let len = crate::encodings::large_size(g);
    let mut rng = Rng(g.u64());
    let mut code_points: Vec<u32> = Vec::new();
    for _ in 0..len {
        let v = rng.next();
        let c = match codec {
            Some(codec) => codec.decode[(v & 0xff) as usize].filter(|c| *c != 0 && (codec.name != "Ascii" || *c < 0x80)),
            None => char::from_u32(1 + (v >> 8) as u32 % if v & 3 == 0 { 0x10ffff } else { 0x7f }).map(|c| c as u32),
        };
        code_points.push(c.unwrap_or(0x20));
    }
    let at = g.usize(0, len);
    let mut string = ByteString::new_with_encoding(&encoding_of(codec));
    for part in [code_points[..at].to_vec(), code_points[at..].to_vec()].iter() {
        check!(no_panic(|| string.extend_from_codepoints(part).is_ok())?, "extend with {} code points failed", part.len());
    }
    match decode(codec, &string.elements) {
        Ok(back) => check!(back == code_points, "{} code points: the elements are of {} code points, which differ at {:?}", len, back.len(), back.iter().zip(code_points.iter()).position(|(a, b)| a != b)),
        Err(_) => return fail("the elements cannot be decoded"),
    }
    let text = no_panic(|| string.to_string())?;
    check!(text == escape(&code_points), "text of {} code points differs", len);
    let mut copy = ByteString::new_with_encoding(&encoding_of(codec));
    copy.read_data(&string.elements);
    check!(copy == string && copy.len() == string.len(), "a string read from {} elements has {}", string.len(), copy.len());
    // And in UTF-8.
    let mut utf8 = ByteString::new();
    check!(no_panic(|| utf8.extend(&string).is_ok())?, "extend with a string of {} elements failed", string.len());
    let want: String = code_points.iter().map(|c| char::from_u32(*c).unwrap()).collect();
    check!(utf8.elements == want.as_bytes(), "extend of UTF-8 with a string of {} elements differs", string.len());
    check!(ByteString::from(want.as_str()).elements == want.as_bytes(), "string of {} bytes of text", want.len());
    // The last element decides.
    let mut other = copy.clone();
    if let Some(last) = other.elements.last_mut() {
        *last ^= 1;
    }
    check!(other != string && other.cmp(&string) == other.elements.cmp(&string.elements), "strings of {} elements with another last one", string.len());
    g.nontrivial();
    g.note(|| format!("{:?} {} code points", string.encoding, len));
    Ok(())
}

pub const C14: Property = Property {
    id: "C14",
    rule: "A case builds a byte string in UTF-8 or one of 36 single byte encodings from buffers, code points and other strings and compares every step with a model of its elements and, for its text, with independent decoders. Non-trivial: more than one step on a string of more than one element, a conversion between encodings, or text of more than one character.",
    assumptions: &["what a failed extend added, and how bytes that cannot be decoded are shown, is not specified"],
    facets: &[
        Facet { name: "history", work: Work::Random(100_000, 4_000_000), case: byte_string_history },
        Facet { name: "conversions", work: Work::Random(60_000, 2_000_000), case: byte_string_conversions },
        Facet { name: "large", work: Work::Random(60, 2_000), case: byte_string_large },
    ],
};

fn gen_units(g: &mut Gen, max: usize) -> Vec<u16> {
    let n = g.usize(0, max);
    let mut out = Vec::new();
    while out.len() < n {
        match g.below_or(6) {
            0 | 1 => out.push(g.range(0x20, 0x7e) as u16),
            2 => out.push(0x5c),
            3 => out.push(g.range(0xd7f0, 0xe010) as u16),
            4 => {
                out.push(g.range(0xd800, 0xdbff) as u16);
                out.push(g.range(0xdc00, 0xdfff) as u16);
            }
            5 => out.push(g.edgy(16) as u16),
            _ => out.push(g.u16()),
        }
    }
    out
}

fn to_bytes(units: &[u16], big: bool) -> Vec<u8> {
    units.iter().flat_map(|u| if big { u.to_be_bytes() } else { u.to_le_bytes() }).collect()
}

fn escape_ucs2(units: &[u16]) -> String {
    let v: Vec<u32> = units.iter().map(|u| *u as u32).collect();
    escape(&v)
}

fn cut(units: &[u16]) -> &[u16] {
    &units[..units.iter().position(|u| *u == 0).unwrap_or(units.len())]
}

fn ucs2(g: &mut Gen) -> CaseResult {
    let units = gen_units(g, 40);
    let want = cut(&units).to_vec();
    // A trailing byte that is no element is ignored.
    let trailing = if g.chance(1, 3) { vec![g.u8()] } else { Vec::new() };
    let bytes = |units: &[u16], big: bool| [to_bytes(units, big), trailing.clone()].concat();
    g.class_if(!trailing.is_empty(), "trailing byte");
    let mut strings = vec![
        Ucs2String::from_be_bytes(&bytes(&units, true)),
        Ucs2String::from_le_bytes(&bytes(&units, false)),
        Ucs2String::from(units.as_slice()),
        Ucs2String::from(&units),
    ];
    let mut read = Ucs2String::new();
    check!(read.is_empty() && read.len() == 0, "a new string is not empty");
    read.read_data_le(&bytes(&units, false));
    strings.push(read);
    for (i, s) in strings.iter().enumerate() {
        check_eq!(s.elements, want, "elements by constructor {} of {:04x?}", i, units);
        check_eq!(s.len(), want.len(), "length");
        check_eq!(s.is_empty(), want.is_empty(), "is empty");
        check_eq!(s.to_string(), escape_ucs2(&want), "text of {:04x?}", want);
    }
    // A second read appends.
    let more = gen_units(g, 10);
    strings[4].read_data_le(&bytes(&more, false));
    let mut both = want.clone();
    both.extend_from_slice(cut(&more));
    check_eq!(strings[4].elements, both, "elements after a second read");
    check_eq!(strings[0] == strings[4], cut(&more).is_empty(), "equality after a second read");
    if want.len() > 1 {
        g.nontrivial();
    }
    g.class_if(want.len() < units.len(), "end-of-string character");
    g.class_if(want.iter().any(|u| (0xd800..0xe000).contains(u)), "surrogate");
    g.note(|| format!("{:04x?}", units));
    Ok(())
}

fn ucs2_text(g: &mut Gen) -> CaseResult {
    let n = g.usize(0, 30);
    let text: String = (0..n).map(|_| char::from_u32(gen_code_point(g, None)).unwrap()).collect();
    let want: Vec<u16> = text.encode_utf16().collect();
    check_eq!(Ucs2String::from(text.as_str()).elements, want, "elements of {:?}", text);
    check_eq!(Ucs2String::from(&text).elements, want, "elements of {:?}", text);
    check_eq!(Ucs2String::from(text.as_str()).to_string(), escape_ucs2(&want), "text of {:?}", text);
    if n > 1 {
        g.nontrivial();
    }
    g.class_if(want.len() != n, "supplementary character");
    g.note(|| text.clone());
    Ok(())
}

fn utf16(g: &mut Gen) -> CaseResult {
    let units = gen_units(g, 40);
    let want = cut(&units).to_vec();
    let text: String = char::decode_utf16(want.iter().copied())
        .map(|r| match r {
            Ok(c) => c.to_string(),
            Err(e) => format!("\\{{{:04x}}}", e.unpaired_surrogate()),
        })
        .collect();
    let strings = [
        Utf16String::from_be_bytes(&to_bytes(&units, true)),
        Utf16String::from_le_bytes(&to_bytes(&units, false)),
    ];
    check!(Utf16String::new().elements.is_empty(), "a new string is not empty");
    for s in strings.iter() {
        check_eq!(s.elements, want, "elements of {:04x?}", units);
        check_eq!(no_panic(|| s.to_string())?, text, "text of {:04x?}", want);
    }
    check!(strings[0] == strings[1], "big and little endian strings differ");
    check_eq!(hash_of(&strings[0]), hash_of(&strings[1]), "hash");
    let mut unpaired = 0;
    for r in char::decode_utf16(want.iter().copied()) {
        unpaired += r.is_err() as usize;
    }
    g.class_if(unpaired > 0, "unpaired surrogate");
    g.class_if(want.len() < units.len(), "end-of-string character");
    if want.len() > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{:04x?}", units));
    Ok(())
}

/// Every 16-bit value as one element.
fn all_units(g: &mut Gen) -> CaseResult {
    let u = g.below_or(0xffff) as u16;
    let units = [u];
    let want = cut(&units).to_vec();
    for big in [true, false] {
        let data = to_bytes(&units, big);
        let (a, b) = if big {
            (Ucs2String::from_be_bytes(&data), Utf16String::from_be_bytes(&data))
        } else {
            (Ucs2String::from_le_bytes(&data), Utf16String::from_le_bytes(&data))
        };
        check_eq!(a.elements, want, "UCS-2 element {:04x}", u);
        check_eq!(b.elements, want, "UTF-16 element {:04x}", u);
        check_eq!(a.to_string(), escape_ucs2(&want), "UCS-2 text of {:04x}", u);
        let text = match want.first() {
            None => String::new(),
            Some(v) => match char::from_u32(*v as u32) {
                Some(c) => c.to_string(),
                None => format!("\\{{{:04x}}}", v),
            },
        };
        check_eq!(no_panic(|| b.to_string())?, text, "UTF-16 text of {:04x}", u);
    }
    g.nontrivial();
    g.note(|| format!("{:04x}", u));
    Ok(())
}

/// Strings of tens of thousands of elements.
fn large_16bit(g: &mut Gen) -> CaseResult {
    let len = crate::encodings::large_size(g);
    let mut rng = Rng(g.u64());
    let end = if g.chance(1, 3) { len - 1 - g.usize(0, 9) } else { len };
    let mut units: Vec<u16> = (0..len)
        .map(|_| match rng.next() {
            v if v & 3 == 0 => (v >> 8) as u16,
            v => 0x20 + (v >> 8) as u16 % 95,
        })
        .map(|u| if u == 0 { 0x41 } else { u })
        .collect();
    if end < len {
        units[end] = 0;
    }
    let want = &units[..end];
    for big in [true, false] {
        let data = to_bytes(&units, big);
        let (a, b) = if big {
            (Ucs2String::from_be_bytes(&data), Utf16String::from_be_bytes(&data))
        } else {
            (Ucs2String::from_le_bytes(&data), Utf16String::from_le_bytes(&data))
        };
        check!(a.elements == want && a.len() == end, "UCS-2 string of {} elements has {}", end, a.elements.len());
        check!(b.elements == want, "UTF-16 string of {} elements has {}", end, b.elements.len());
        check!(a.to_string() == escape_ucs2(want), "UCS-2 text of {} elements", end);
        let text: String = char::decode_utf16(want.iter().copied())
            .map(|r| match r {
                Ok(c) => c.to_string(),
                Err(e) => format!("\\{{{:04x}}}", e.unpaired_surrogate()),
            })
            .collect();
        check!(no_panic(|| b.to_string())? == text, "UTF-16 text of {} elements", end);
        let mut other = a.clone();
        *other.elements.last_mut().unwrap() ^= 0x100;
        check!(other != a && other.cmp(&a) == other.elements.cmp(&a.elements), "strings of {} elements with another last one", end);
    }
    check!(Ucs2String::from(units.as_slice()).elements == want, "UCS-2 string of {} elements", end);
    let mut read = Ucs2String::new();
    let at = g.usize(0, end);
    read.read_data_le(&to_bytes(&units[..at], false));
    read.read_data_le(&to_bytes(&units[at..], false));
    check!(read.elements == want, "UCS-2 string of {} elements read in two parts", end);
    g.class_if(end < len, "end-of-string character");
    g.nontrivial();
    g.note(|| format!("{} elements", end));
    Ok(())
}

pub const C15: Property = Property {
    id: "C15",
    rule: "A case reads 16-bit strings from bytes, elements or text in every way the API offers and compares elements and text with the Rust standard library. Non-trivial: the string has more than one element (all_units: every 16-bit value).",
    assumptions: &["byte sequences have an even size"],
    facets: &[
        Facet { name: "ucs2", work: Work::Random(80_000, 3_000_000), case: ucs2 },
        Facet { name: "ucs2_text", work: Work::Random(40_000, 1_500_000), case: ucs2_text },
        Facet { name: "utf16", work: Work::Random(80_000, 3_000_000), case: utf16 },
        Facet { name: "all_units", work: Work::Exhaustive(0x10000), case: all_units },
        Facet { name: "large", work: Work::Random(60, 2_000), case: large_16bit },
    ],
};

/// A string close to another one.
fn neighbour(g: &mut Gen, units: &[u16]) -> Vec<u16> {
    let mut out = units.to_vec();
    match g.below_or(5) {
        0 => {}
        1 => {
            let n = g.usize(0, out.len());
            out.truncate(n);
        }
        2 => out.extend(gen_units(g, 4)),
        3 => {
            if !out.is_empty() {
                let i = g.usize(0, out.len() - 1);
                out[i] = out[i].wrapping_add(*g.pick(&[1u16, 0xffff, 0x100, 0x20, 0x8000]));
            }
        }
        4 => {
            if out.len() > 1 {
                let i = g.usize(0, out.len() - 2);
                out.swap(i, i + 1);
            }
        }
        _ => out = gen_units(g, 12),
    }
    out.retain(|u| *u != 0);
    out
}

fn compare(g: &mut Gen) -> CaseResult {
    let mut a = gen_units(g, 12);
    a.retain(|u| *u != 0);
    let b = neighbour(g, &a);
    let c = neighbour(g, &b);
    let strings: Vec<Ucs2String> = [&a, &b, &c].iter().map(|v| Ucs2String::from(v.as_slice())).collect();
    let values = [&a, &b, &c];
    for i in 0..3 {
        for j in 0..3 {
            let want = values[i].cmp(values[j]);
            check_eq!(strings[i].compare(&strings[j]), want, "compare {:04x?} with {:04x?}", values[i], values[j]);
            check_eq!(strings[i].cmp(&strings[j]), want, "order of {:04x?} and {:04x?}", values[i], values[j]);
            check_eq!(strings[i] == strings[j], want == Ordering::Equal, "equality of {:04x?} and {:04x?}", values[i], values[j]);
            if want == Ordering::Equal {
                check_eq!(hash_of(&strings[i]), hash_of(&strings[j]), "hash");
            }
        }
    }
    g.class(match a.cmp(&b) {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    g.class_if(a != b && (a.starts_with(&b) || b.starts_with(&a)), "prefix");
    if a.len() > 1 || b.len() > 1 {
        g.nontrivial();
    }
    g.note(|| format!("{:04x?} {:04x?} {:04x?}", a, b, c));
    Ok(())
}

fn case_folding(g: &mut Gen) -> CaseResult {
    let n = g.usize(0, 30);
    let alphabet = g.bool();
    let mut mappings: HashMap<u16, u16> = HashMap::new();
    if alphabet {
        for c in b'a'..=b'z' {
            mappings.insert(c as u16, (c - 32) as u16);
        }
    }
    let extra = g.usize(0, 12);
    for _ in 0..extra {
        let k = if g.bool() { g.range(0x61, 0x7a) as u16 } else { g.edgy(16) as u16 };
        let v = g.edgy(16) as u16;
        mappings.insert(k, v);
    }
    let mut keys: Vec<u16> = mappings.keys().copied().collect();
    keys.sort();
    let units: Vec<u16> = (0..n)
        .map(|_| {
            let u = if !keys.is_empty() && g.bool() { *g.pick(&keys) } else { g.range(0x41, 0x7a) as u16 };
            if u == 0 { 0x61 } else { u }
        })
        .collect();
    let source = Ucs2String::from(units.as_slice());
    let folded = Ucs2String::new_with_case_folding(&source, &mappings);
    let want: Vec<u16> = units.iter().map(|u| *mappings.get(u).unwrap_or(u)).collect();
    check_eq!(folded.elements, want, "case folding of {:04x?}", units);
    check_eq!(source.elements, units, "the source of case folding");
    if alphabet && extra == 0 {
        let again = Ucs2String::new_with_case_folding(&folded, &mappings);
        check_eq!(again.elements, folded.elements, "case folding twice");
        let text = source.to_string().to_ascii_uppercase();
        check_eq!(folded.to_string(), text, "case folding as ASCII upper case");
        g.class("ASCII upper case");
    }
    g.class_if(want != units, "changed");
    if n > 1 && want != units {
        g.nontrivial();
    }
    g.note(|| format!("{:04x?} with {} mappings", units, mappings.len()));
    Ok(())
}

/// Lower case letters that the table has no mapping for: of later versions of Unicode, and those whose
/// upper case letter has another lower case letter.
#[rustfmt::skip]
const NOT_MAPPED: [(u16, u16); 81] = [
    (0x00b5, 0x00b5), (0x0131, 0x0131), (0x017f, 0x017f), (0x019b, 0x019b), (0x01c5, 0x01c5), (0x01c8, 0x01c8),
    (0x01cb, 0x01cb), (0x01f2, 0x01f2), (0x023f, 0x0240), (0x0252, 0x0252), (0x025c, 0x025c), (0x0261, 0x0261),
    (0x0264, 0x0266), (0x026a, 0x026a), (0x026c, 0x026c), (0x0282, 0x0282), (0x0287, 0x0287), (0x029d, 0x029e),
    (0x0345, 0x0345), (0x03c2, 0x03c2), (0x03d0, 0x03d1), (0x03d5, 0x03d6), (0x03f0, 0x03f1), (0x03f3, 0x03f3),
    (0x03f5, 0x03f5), (0x0525, 0x0525), (0x0527, 0x0527), (0x0529, 0x0529), (0x052b, 0x052b), (0x052d, 0x052d),
    (0x052f, 0x052f), (0x10d0, 0x10fa), (0x10fd, 0x10ff), (0x13f8, 0x13fd), (0x1c80, 0x1c88), (0x1c8a, 0x1c8a),
    (0x1d8e, 0x1d8e), (0x1e9b, 0x1e9b), (0x1fbe, 0x1fbe), (0x2c5f, 0x2c5f), (0x2cec, 0x2cec), (0x2cee, 0x2cee),
    (0x2cf3, 0x2cf3), (0x2d27, 0x2d27), (0x2d2d, 0x2d2d), (0xa661, 0xa661), (0xa699, 0xa699), (0xa69b, 0xa69b),
    (0xa791, 0xa791), (0xa793, 0xa794), (0xa797, 0xa797), (0xa799, 0xa799), (0xa79b, 0xa79b), (0xa79d, 0xa79d),
    (0xa79f, 0xa79f), (0xa7a1, 0xa7a1), (0xa7a3, 0xa7a3), (0xa7a5, 0xa7a5), (0xa7a7, 0xa7a7), (0xa7a9, 0xa7a9),
    (0xa7b5, 0xa7b5), (0xa7b7, 0xa7b7), (0xa7b9, 0xa7b9), (0xa7bb, 0xa7bb), (0xa7bd, 0xa7bd), (0xa7bf, 0xa7bf),
    (0xa7c1, 0xa7c1), (0xa7c3, 0xa7c3), (0xa7c8, 0xa7c8), (0xa7ca, 0xa7ca), (0xa7cd, 0xa7cd), (0xa7cf, 0xa7cf),
    (0xa7d1, 0xa7d1), (0xa7d3, 0xa7d3), (0xa7d5, 0xa7d5), (0xa7d7, 0xa7d7), (0xa7d9, 0xa7d9), (0xa7db, 0xa7db),
    (0xa7f6, 0xa7f6), (0xab53, 0xab53), (0xab70, 0xabbf),
];

/// Every entry of the table with upper case letters.
fn case_mappings(g: &mut Gen) -> CaseResult {
    let unit = g.below_or(0xffff) as u16;
    let table = &keramics_types::constants::UCS2_CASE_MAPPINGS;
    let found: Vec<u16> = table.iter().filter(|(k, _)| *k == unit).map(|(_, v)| *v).collect();
    check!(found.len() < 2, "more than one mapping of {:04x}", unit);
    let c = match char::from_u32(unit as u32) {
        Some(c) => c,
        None => {
            check!(found.is_empty(), "a mapping of the surrogate {:04x}", unit);
            return Ok(());
        }
    };
    let one = |mut i: Vec<char>| if i.len() == 1 { i.pop() } else { None };
    let upper = one(c.to_uppercase().collect()).filter(|u| *u != c && (*u as u32) < 0x10000);
    match found.first() {
        Some(v) => {
            g.nontrivial();
            g.class("mapped");
            check!(!table.iter().any(|(k, _)| k == v), "{:04x} is mapped to {:04x}, which is mapped too", unit, v);
            // Upper case letters with an iota have more than one character in later versions.
            let lower = char::from_u32(*v as u32).and_then(|u| one(u.to_lowercase().collect()));
            check!(upper.map(|u| u as u32) == Some(*v as u32) || (0x1f80..0x2000).contains(&unit) && lower == Some(c), "{:04x} is mapped to {:04x}, and its upper case is {:?}", unit, v, upper);
        }
        None => check!(upper.is_none() || NOT_MAPPED.iter().any(|(a, b)| (*a..=*b).contains(&unit)), "{:04x} has no mapping, and its upper case is {:?}", unit, upper),
    }
    // As file systems use it.
    static MAPPINGS: std::sync::OnceLock<HashMap<u16, u16>> = std::sync::OnceLock::new();
    let mappings = MAPPINGS.get_or_init(|| table.iter().copied().collect());
    if unit != 0 {
        let folded = Ucs2String::new_with_case_folding(&Ucs2String::from([unit, 0x61, unit].as_slice()), mappings);
        let want = found.first().copied().unwrap_or(unit);
        check_eq!(folded.elements, vec![want, 0x41, want], "case folding of {:04x}", unit);
    }
    Ok(())
}

pub const C16: Property = Property {
    id: "C16",
    rule: "A case compares three strings that are close to each other (prefix, one element changed, swapped) with slice comparison, or folds a string with a generated mapping, or takes a code unit and its entry in the table of upper case letters. Non-trivial: a string of more than one element; folding changed it; the table has an entry.",
    assumptions: &[],
    facets: &[
        Facet { name: "compare", work: Work::Random(120_000, 5_000_000), case: compare },
        Facet { name: "case_folding", work: Work::Random(60_000, 2_000_000), case: case_folding },
        Facet { name: "case_mappings", work: Work::Exhaustive(0x10000), case: case_mappings },
    ],
};

fn uuid_bytes(g: &mut Gen) -> [u8; 16] {
    let mut data = [0u8; 16];
    match g.below_or(5) {
        0 => {}
        1 => data = [0xff; 16],
        2 => {
            let i = g.usize(0, 15);
            data[i] = 1 << g.below_or(7);
        }
        3 => {
            data = [0xff; 16];
            let i = g.usize(0, 15);
            data[i] ^= 1 << g.below_or(7);
        }
        4 => {
            for (i, b) in data.iter_mut().enumerate() {
                *b = i as u8 + 1;
            }
        }
        _ => data.copy_from_slice(&g.bytes(16)),
    }
    data
}

fn uuid_text(d: &[u8]) -> String {
    let h: String = d.iter().map(|b| format!("{:02x}", b)).collect();
    format!("{}-{}-{}-{}-{}", &h[0..8], &h[8..12], &h[12..16], &h[16..20], &h[20..32])
}

fn uuid(g: &mut Gen) -> CaseResult {
    let data = uuid_bytes(g);
    let extra = g.usize(0, 4);
    let mut buffer = data.to_vec();
    buffer.extend(g.bytes(extra));
    let be = Uuid::from_be_bytes(&buffer);
    let text = uuid_text(&data);
    check_eq!(be.to_string(), text, "big-endian {}", hex(&data));
    check_eq!(format!("{}", be), text, "display of big-endian {}", hex(&data));
    let mut swapped = data;
    swapped[0..4].reverse();
    swapped[4..6].reverse();
    swapped[6..8].reverse();
    let le = Uuid::from_le_bytes(&buffer);
    check_eq!(le.to_string(), uuid_text(&swapped), "little-endian {}", hex(&data));
    check_eq!(Uuid::from_le_bytes(&swapped), be, "little-endian of the swapped bytes");
    check_eq!(be.is_nil(), data == [0; 16], "is nil {}", text);
    check_eq!(be.is_max(), data == [0xff; 16], "is max {}", text);
    check!(Uuid::new().is_nil() && !Uuid::new().is_max(), "a new UUID is not nil");

    // From its text, in any case, with or without braces.
    let mut s: String = text.chars().map(|c| if g.bool() { c.to_ascii_uppercase() } else { c }).collect();
    let braces = g.bool();
    if braces {
        s = format!("{{{}}}", s);
    }
    let mut parsed = if g.bool() { Uuid::new() } else { Uuid::from_be_bytes(&[0xa5; 16]) };
    check!(parsed.from_string(&s).is_ok(), "{:?} is rejected", s);
    check_eq!(parsed, be, "UUID of {:?}", s);
    check_eq!(hash_of(&parsed), hash_of(&be), "hash of {:?}", s);
    // Another UUID is not equal.
    let mut other = data;
    let i = g.usize(0, 15);
    other[i] ^= 1 << g.below_or(7);
    check!(Uuid::from_be_bytes(&other) != be, "{} is equal to {}", hex(&other), text);
    g.class_if(braces, "braces");
    if data != [0; 16] && data != [0xff; 16] {
        g.nontrivial();
    }
    g.note(|| format!("{} {:?}", hex(&buffer), s));
    Ok(())
}

/// Whether a string is a UUID.
fn is_uuid(s: &str) -> bool {
    let b = s.as_bytes();
    let b = if b.len() >= 2 && b[0] == b'{' && b[b.len() - 1] == b'}' { &b[1..b.len() - 1] } else { b };
    b.len() == 36
        && b.iter().enumerate().all(|(i, c)| match i {
            8 | 13 | 18 | 23 => *c == b'-',
            _ => c.is_ascii_hexdigit(),
        })
}

fn uuid_invalid(g: &mut Gen) -> CaseResult {
    let data = uuid_bytes(g);
    let mut s: Vec<char> = uuid_text(&data).chars().collect();
    if g.chance(1, 4) {
        s.insert(0, '{');
        s.push('}');
    }
    const ODD: &[char] = &['-', '+', 'g', 'G', ' ', 'x', '{', '}', '_', '/', ':', '@', '`', 'é', '\u{ff10}', '\0', '٣', 'a', '0'];
    for _ in 0..g.usize(1, 2) {
        let i = g.usize(0, s.len().saturating_sub(1));
        match g.below_or(4) {
            0 => s.insert(i, *g.pick(ODD)),
            1 | 2 => {
                if i < s.len() {
                    s[i] = *g.pick(ODD);
                }
            }
            3 => {
                if i < s.len() {
                    s.remove(i);
                }
            }
            _ => {
                if s.len() > 1 {
                    let j = g.usize(0, s.len() - 1);
                    s.swap(i, j);
                }
            }
        }
    }
    let s: String = s.into_iter().collect();
    let valid = is_uuid(&s);
    let mut u = Uuid::from_be_bytes(&[0xa5; 16]);
    let result = no_panic(|| u.from_string(&s).is_ok())?;
    check_eq!(result, valid, "parse of {:?}", s);
    if valid {
        let want = s.trim_start_matches('{').trim_end_matches('}').to_ascii_lowercase();
        check_eq!(u.to_string(), want, "text of {:?}", s);
        g.class("still valid");
    } else {
        check_eq!(u, Uuid::from_be_bytes(&[0xa5; 16]), "the UUID after {:?} was rejected", s);
        g.class("invalid");
        g.nontrivial();
    }
    g.note(|| format!("{:?}", s));
    Ok(())
}

pub const C17: Property = Property {
    id: "C17",
    rule: "A case reads a UUID from 16 bytes in both byte orders and from text and compares with an independent formatter, or parses mutated text. Non-trivial: neither nil nor max; the mutated text is not a UUID.",
    assumptions: &[],
    facets: &[
        Facet { name: "round_trip", work: Work::Random(100_000, 4_000_000), case: uuid },
        Facet { name: "invalid", work: Work::Random(100_000, 4_000_000), case: uuid_invalid },
    ],
};

fn integers(g: &mut Gen) -> CaseResult {
    let len = g.usize(8, 40);
    let data = if g.bool() { g.bytes(len) } else { g.blob(len) };
    let o = g.usize(0, len - 8);
    let value = |n: usize, big: bool| -> u64 {
        let mut v = 0u64;
        for i in 0..n {
            let b = data[o + i] as u64;
            if big {
                v = v << 8 | b;
            } else {
                v |= b << (8 * i);
            }
        }
        v
    };
    let signed = |v: u64, bits: u32| -> i64 { ((v << (64 - bits)) as i64) >> (64 - bits) };
    check_eq!(bytes_to_u16_be!(data, o) as u64, value(2, true), "u16 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_u16_le!(data, o) as u64, value(2, false), "u16 le at {} of {}", o, hex(&data));
    check_eq!(bytes_to_u32_be!(data, o) as u64, value(4, true), "u32 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_u32_le!(data, o) as u64, value(4, false), "u32 le at {} of {}", o, hex(&data));
    check_eq!(bytes_to_u64_be!(data, o), value(8, true), "u64 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_u64_le!(data, o), value(8, false), "u64 le at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i16_be!(data, o) as i64, signed(value(2, true), 16), "i16 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i16_le!(data, o) as i64, signed(value(2, false), 16), "i16 le at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i32_be!(data, o) as i64, signed(value(4, true), 32), "i32 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i32_le!(data, o) as i64, signed(value(4, false), 32), "i32 le at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i64_be!(data, o), signed(value(8, true), 64), "i64 be at {} of {}", o, hex(&data));
    check_eq!(bytes_to_i64_le!(data, o), signed(value(8, false), 64), "i64 le at {} of {}", o, hex(&data));
    if o > 0 && data[o..o + 8].windows(2).any(|w| w[0] != w[1]) {
        g.nontrivial();
    }
    g.class_if(data[o] >= 0x80, "most significant bit (be)");
    g.class_if(data[o + 7] >= 0x80, "most significant bit (le)");
    g.note(|| format!("offset {} of {}", o, hex(&data)));
    Ok(())
}

/// Every 16-bit value.
fn integers_16bit(g: &mut Gen) -> CaseResult {
    let v = g.below_or(0xffff) as u16;
    let data = [0x5a, (v >> 8) as u8, v as u8, 0xa5];
    check_eq!(bytes_to_u16_be!(data, 1), v, "u16 be of {}", hex(&data));
    check_eq!(bytes_to_i16_be!(data, 1), v as i16, "i16 be of {}", hex(&data));
    let data = [0x5a, v as u8, (v >> 8) as u8, 0xa5];
    check_eq!(bytes_to_u16_le!(data, 1), v, "u16 le of {}", hex(&data));
    check_eq!(bytes_to_i16_le!(data, 1), v as i16, "i16 le of {}", hex(&data));
    g.nontrivial();
    g.note(|| format!("{:04x}", v));
    Ok(())
}

pub const C18: Property = Property {
    id: "C18",
    rule: "A case reads signed and unsigned 16, 32 and 64-bit integers in both byte orders at an offset of a buffer and compares with arithmetic on the bytes. Non-trivial: the offset is not 0 and the bytes differ.",
    assumptions: &[],
    facets: &[
        Facet { name: "integers", work: Work::Random(100_000, 4_000_000), case: integers },
        Facet { name: "all_16bit", work: Work::Exhaustive(0x10000), case: integers_16bit },
    ],
};
