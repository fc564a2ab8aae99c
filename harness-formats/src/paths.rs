//! C52 paths and path components of the file systems.

use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use keramics_encodings::CharacterEncoding;
use keramics_formats::PathComponent;
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_formats::ntfs::NtfsPath;
use keramics_types::{ByteString, Ucs2String};
use pbt::*;

fn gen_char(g: &mut Gen) -> char {
    match g.below_or(9) {
        0..=3 => *g.pick(&['a', 'b', 'Z', '0', ' ', '_']),
        4 | 5 => '.',
        6 => char::from(g.range(0x21, 0x7e) as u8),
        7 => *g.pick(&['é', 'ß', 'ſ', 'İ', 'ﬁ', '\u{301}', '漢', '\u{ffff}', '\u{e000}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}']),
        8 => char::from_u32(g.range(0x80, 0xffff) as u32).unwrap_or('é'),
        _ => char::from_u32(g.range(0x10000, 0x10ffff) as u32).unwrap_or('😀'),
    }
}

/// Name of at least one character, without separators.
fn gen_name(g: &mut Gen, wide: bool) -> String {
    let n = match g.below_or(5) {
        0 => 1,
        5 => g.usize(1, 60),
        _ => g.usize(1, 8),
    };
    let mut out: String = (0..n)
        .map(|_| match gen_char(g) {
            '/' | '\\' => '-',
            c if !wide && c as u32 > 0xffff => '?',
            c => c,
        })
        .collect();
    if out == ".." {
        out = String::from("..c");
    }
    out
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut hasher = DefaultHasher::new();
    v.hash(&mut hasher);
    hasher.finish()
}

/// Stem and extension: a leading dot does not precede an extension.
fn split_name(name: &str) -> (&str, Option<&str>) {
    match name.char_indices().skip(1).filter(|(_, c)| *c == '.').last() {
        Some((i, _)) => (&name[..i], Some(&name[i + 1..])),
        None => (name, None),
    }
}

fn split_elements<T: Copy + PartialEq>(name: &[T], dot: T) -> (&[T], Option<&[T]>) {
    for i in (1..name.len()).rev() {
        if name[i] == dot {
            return (&name[..i], Some(&name[i + 1..]));
        }
    }
    (name, None)
}

/// Components of a path: none if it is empty, otherwise what the separators separate.
fn split_path(path: &str, separator: char) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    if path.is_empty() {
        return out;
    }
    let mut name = String::new();
    for c in path.chars() {
        if c == separator {
            out.push(std::mem::take(&mut name));
        } else {
            name.push(c);
        }
    }
    if !name.is_empty() || out.len() > 1 {
        out.push(name);
    }
    // The root directory.
    if out.is_empty() { vec![String::new()] } else { out }
}

fn gen_path(g: &mut Gen, separator: char, wide: bool) -> String {
    match g.below_or(9) {
        0 => String::new(),
        1 => separator.to_string(),
        2 => {
            // Relative.
            let n = g.usize(1, 4);
            let names: Vec<String> = (0..n).map(|_| gen_name(g, wide)).collect();
            names.join(&separator.to_string())
        }
        _ => {
            let n = g.usize(1, 6);
            (0..n).map(|_| format!("{}{}", separator, gen_name(g, wide))).collect()
        }
    }
}

macro_rules! path_case {
    ($case:ident, $path:ty, $component:ty, $separator:expr, $wide:expr) => {
        fn $case(g: &mut Gen) -> CaseResult {
            let text = gen_path(g, $separator, $wide);
            let names = split_path(&text, $separator);
            g.note(|| format!("{:?} of {:?}", text, names));
            let path = <$path>::from(text.as_str());
            let components: Vec<$component> = names.iter().map(|v| <$component>::from(v.as_str())).collect();
            check_eq!(path.components, components, "components of {:?}", text);
            check!(path == <$path>::from(&text), "path of a string {:?}", text);
            check_eq!(path.is_empty(), text.is_empty(), "emptiness of {:?}", text);
            check_eq!(path.to_string(), text, "string of the path of {:?}", names);
            let slices: Vec<&str> = names.iter().map(|v| v.as_str()).collect();
            for (what, other) in [
                ("&[&str]", <$path>::from(slices.as_slice())),
                ("&Vec<&str>", <$path>::from(&slices)),
                ("&[String]", <$path>::from(names.as_slice())),
                ("&Vec<String>", <$path>::from(&names)),
            ] {
                check!(other == path, "path of {} {:?}: {:?}", what, names, other);
                check_eq!(hash(&other), hash(&path), "hash of a path of {} {:?}", what, names);
            }
            // The file name is the last component of a path of more than one.
            let last = if names.len() > 1 { names.last() } else { None };
            check_eq!(path.file_name().cloned(), last.map(|v| <$component>::from(v.as_str())), "file name of {:?}", text);
            let (stem, extension) = match last {
                Some(v) if !v.is_empty() => {
                    let (stem, extension) = split_name(v);
                    (Some(stem), extension)
                }
                _ => (None, None),
            };
            check_eq!(path.file_stem(), stem.map(<$component>::from), "stem of {:?}", text);
            check_eq!(path.extension(), extension.map(<$component>::from), "extension of {:?}", text);
            g.class_if(extension.is_some(), "extension");
            g.class_if(last.is_some_and(|v| v.starts_with('.')), "leading dot");

            let parent = path.new_with_parent_directory();
            let upper = if names.len() > 1 { &components[..components.len() - 1] } else { &components[..] };
            check_eq!(parent.components, upper, "parent of {:?}", text);
            let more: Vec<String> = (0..g.usize(0, 3)).map(|_| gen_name(g, $wide)).collect();
            let more_components: Vec<$component> = more.iter().map(|v| <$component>::from(v.as_str())).collect();
            let joined = path.new_with_join(&more_components);
            check_eq!(joined.components, [&components[..], &more_components[..]].concat(), "{:?} joined with {:?}", text, more);
            let mut pushed = path.clone();
            for v in more_components.iter() {
                pushed.push(v.clone());
            }
            check!(pushed == joined, "{:?} with {:?} pushed: {:?}", text, more, pushed);
            check!((joined == path) == more.is_empty(), "{:?} equals {:?}", joined, path);
            if !names.is_empty() && !more.is_empty() {
                let mut expected = if text.len() == 1 && text.starts_with($separator) { String::new() } else { text.clone() };
                for v in more.iter() {
                    expected.push($separator);
                    expected.push_str(v);
                }
                check_eq!(joined.to_string(), expected, "string of {:?} joined with {:?}", text, more);
                let mut back = joined.clone();
                for _ in more.iter() {
                    back = back.new_with_parent_directory();
                }
                check!(back == path, "parents of {:?}: {:?}", joined, back);
            }
            g.class_if(names.len() > 2, "several components");
            if last.is_some() {
                g.nontrivial();
            }
            Ok(())
        }
    };
}

path_case!(fat_paths, FatPath, FatString, '/', false);
path_case!(ext_paths, ExtPath, ByteString, '/', true);
path_case!(ntfs_paths, NtfsPath, Ucs2String, '\\', false);

const ENCODINGS: &[CharacterEncoding] = &[CharacterEncoding::Utf8, CharacterEncoding::Ascii, CharacterEncoding::Iso8859_1, CharacterEncoding::Windows1252, CharacterEncoding::Windows1251, CharacterEncoding::Windows932];

fn gen_byte_string(g: &mut Gen) -> ByteString {
    let encoding = g.pick(ENCODINGS).clone();
    let n = g.usize(1, 12);
    let mut elements: Vec<u8> = (0..n)
        .map(|_| match g.below_or(5) {
            0 | 1 => b'.',
            2 | 3 => g.range(b'a' as u64, b'z' as u64) as u8,
            4 => g.range(0x80, 0xff) as u8,
            _ => g.range(1, 255) as u8,
        })
        .collect();
    if elements == b".." {
        elements.push(b'c');
    }
    ByteString { encoding, elements }
}

fn gen_ucs2_string(g: &mut Gen) -> Ucs2String {
    let n = g.usize(1, 12);
    let mut elements: Vec<u16> = (0..n)
        .map(|_| match g.below_or(5) {
            0 | 1 => 0x2e,
            2 | 3 => g.range(0x61, 0x7a) as u16,
            4 => *g.pick(&[0x2e00, 0x2e2e, 0x012e, 0xd82e, 0xdc2e, 0xffff]),
            _ => g.range(1, 0xffff) as u16,
        })
        .collect();
    if elements == [0x2e, 0x2e] {
        elements.push(0x63);
    }
    Ucs2String { elements }
}

/// Stem and extension of names in any encoding.
fn encoded_names(g: &mut Gen) -> CaseResult {
    let bytes = gen_byte_string(g);
    let ucs2 = gen_ucs2_string(g);
    let text = gen_name(g, true);
    g.note(|| format!("{:?} {:?} {:?}", bytes, ucs2, text));

    let (stem, extension) = split_elements(&bytes.elements, 0x2e);
    let of = |v: &[u8]| ByteString { encoding: bytes.encoding.clone(), elements: v.to_vec() };
    let (bytes_stem, bytes_extension) = (of(stem), extension.map(of));
    let (stem, extension) = split_elements(&ucs2.elements, 0x2e);
    let of = |v: &[u16]| Ucs2String { elements: v.to_vec() };
    let (ucs2_stem, ucs2_extension) = (of(stem), extension.map(of));
    let (text_stem, text_extension) = split_name(&text);

    let mut path = ExtPath::from("/some.dir");
    path.push(bytes.clone());
    check_eq!(path.file_name(), Some(&bytes), "file name");
    check_eq!(path.file_stem(), Some(bytes_stem.clone()), "stem in an ext path of {:?}", bytes);
    check_eq!(path.extension(), bytes_extension.clone(), "extension in an ext path of {:?}", bytes);

    let mut path = FatPath::from("/some.dir");
    path.push(FatString::ByteString(bytes.clone()));
    check_eq!(path.file_stem(), Some(FatString::ByteString(bytes_stem.clone())), "stem in a FAT path of {:?}", bytes);
    check_eq!(path.extension(), bytes_extension.clone().map(FatString::ByteString), "extension in a FAT path of {:?}", bytes);
    path.push(FatString::Ucs2String(ucs2.clone()));
    check_eq!(path.file_stem(), Some(FatString::Ucs2String(ucs2_stem.clone())), "stem in a FAT path of {:?}", ucs2);
    check_eq!(path.extension(), ucs2_extension.clone().map(FatString::Ucs2String), "extension in a FAT path of {:?}", ucs2);

    let mut path = NtfsPath::from("\\some.dir");
    path.push(ucs2.clone());
    check_eq!(path.file_stem(), Some(ucs2_stem.clone()), "stem in an NTFS path of {:?}", ucs2);
    check_eq!(path.extension(), ucs2_extension.clone(), "extension in an NTFS path of {:?}", ucs2);

    let component = PathComponent::ByteString(bytes.clone());
    check_eq!(component.to_string(), bytes.to_string(), "string of {:?}", component);
    check_eq!(component.file_stem(), Some(PathComponent::ByteString(bytes_stem)), "stem of {:?}", component);
    check_eq!(component.extension(), bytes_extension.map(PathComponent::ByteString), "extension of {:?}", component);
    let component = PathComponent::Ucs2String(ucs2.clone());
    check_eq!(component.to_string(), ucs2.to_string(), "string of {:?}", component);
    check_eq!(component.file_stem(), Some(PathComponent::Ucs2String(ucs2_stem)), "stem of {:?}", component);
    check_eq!(component.extension(), ucs2_extension.map(PathComponent::Ucs2String), "extension of {:?}", component);
    let component = PathComponent::from(&text);
    check!(component == PathComponent::from(text.as_str()), "component of {:?}", text);
    check_eq!(component.to_string(), text, "string of {:?}", component);
    check_eq!(component.file_stem(), Some(PathComponent::from(text_stem)), "stem of {:?}", component);
    check_eq!(component.extension(), text_extension.map(PathComponent::from), "extension of {:?}", component);
    if bytes.elements.contains(&0x2e) && ucs2.elements.contains(&0x2e) && text.contains('.') {
        g.nontrivial();
    }
    g.class_if(bytes.encoding != CharacterEncoding::Utf8, "other encoding than UTF-8");
    Ok(())
}

pub static C52: Property = Property {
    id: "C52",
    rule: "the path has a file name; names all hold a dot",
    assumptions: &["Names are not empty, do not hold a separator or a backslash and are not \"..\"; a path of one component has no file name."],
    facets: &[
        Facet { name: "fat", work: Work::Random(15000, 300000), case: fat_paths },
        Facet { name: "ext", work: Work::Random(15000, 300000), case: ext_paths },
        Facet { name: "ntfs", work: Work::Random(15000, 300000), case: ntfs_paths },
        Facet { name: "names", work: Work::Random(15000, 300000), case: encoded_names },
    ],
};
