//! Runs the tools, and what every one of them is run on.

use crate::disk::*;
use crate::places::*;
use pbt::*;
use std::ffi::OsStr;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::process::{Command, Stdio};

pub struct Output {
    pub code: i32,
    pub text: String,
    pub bytes: Vec<u8>,
    pub errors: String,
}

/// Runs a tool that is built next to this program.
pub fn run(tool: &str, arguments: &[&OsStr], input: &[u8], directory: &Path) -> Result<Output, Stop> {
    let path = std::env::current_exe().unwrap().parent().unwrap().join(tool);
    let mut child = Command::new(&path)
        .args(arguments)
        .current_dir(directory)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: {:?}: {}", path, e));
    let mut stdin = child.stdin.take().unwrap();
    let input = input.to_vec();
    let writer = std::thread::spawn(move || {
        // In parts, so that reads end in between.
        for part in input.chunks(7001) {
            if stdin.write_all(part).is_err() {
                break;
            }
        }
    });
    let mut stderr = child.stderr.take().unwrap();
    let errors = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = stderr.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut bytes = Vec::new();
    let _ = child.stdout.take().unwrap().read_to_end(&mut bytes);
    let status = child.wait().unwrap();
    let _ = writer.join();
    let errors = errors.join().unwrap();
    let shown: Vec<String> = arguments.iter().map(|a| a.to_string_lossy().to_string()).collect();
    if let Some(signal) = status.signal() {
        return Err(Stop::Fail(format!("{} {}: ended by signal {}: {}", tool, shown.join(" "), signal, errors)));
    }
    let code = status.code().unwrap();
    if code == 101 {
        return Err(Stop::Fail(format!("{} {}: panics: {}", tool, shown.join(" "), errors)));
    }
    Ok(Output { code, text: String::from_utf8_lossy(&bytes).to_string(), bytes, errors })
}

/// Runs a tool that has to succeed.
pub fn succeed(tool: &str, arguments: &[&OsStr], input: &[u8], directory: &Path) -> Result<Output, Stop> {
    let o = run(tool, arguments, input, directory)?;
    if o.code != 0 {
        let shown: Vec<String> = arguments.iter().map(|a| a.to_string_lossy().to_string()).collect();
        return Err(Stop::Fail(format!("{} {}: exit status {}: {}", tool, shown.join(" "), o.code, o.text.chars().chain(o.errors.chars()).take(800).collect::<String>())));
    }
    Ok(o)
}

/// A disk in a directory of its own.
pub fn setup(g: &mut Gen, large: bool, odd: bool) -> Result<(Scratch, Disk), Stop> {
    let scratch = Scratch::new();
    let d = disk(g, Limits { depth: 1, large, odd, raw: odd }, false);
    scratch.write(&d);
    if ambiguous(&d.volume, d.top(), false) || ambiguous_files(&d) {
        discard()?;
    }
    g.note(|| format!("{:?}, {} layers", d.wrap, d.layers.len()));
    Ok((scratch, d))
}

/// The file systems of a disk with the number of the partition.
pub fn systems(d: &Disk) -> Vec<(Option<(Scheme, usize)>, &Fs)> {
    match &d.volume {
        Volume::Raw => Vec::new(),
        Volume::Fs(fs) => vec![(None, fs)],
        Volume::Parts(scheme, parts) => parts
            .iter()
            .enumerate()
            .filter_map(|(i, p)| match &p.volume {
                Volume::Fs(fs) => Some((Some((*scheme, i + 1)), fs)),
                _ => None,
            })
            .collect(),
    }
}

pub fn gpt_identifier(number: usize) -> String {
    format!("{:08x}-0605-0807-090a-0b0c0d0e0ff0", 0x04030200 + number)
}

/// What paths of a file system begin with.
pub fn prefix(part: Option<(Scheme, usize)>, by_identifier: bool) -> String {
    match part {
        None => String::new(),
        Some((Scheme::Gpt, n)) if by_identifier => format!("/gpt{{{}}}", gpt_identifier(n)),
        Some((_, n)) => format!("/p{}", n),
    }
}

fn escaped_character(c: u32, bar: bool) -> Option<String> {
    const OTHERS: [u32; 8] = [0x2028, 0x2029, 0xe000, 0xf8ff, 0xf0000, 0xffffd, 0x100000, 0x10fffd];
    if c < 0x20 || (0x7f..0xa0).contains(&c) {
        Some(format!("\\x{:02x}", c))
    } else if c == '/' as u32 || c == ':' as u32 || c == '\\' as u32 || bar && c == '|' as u32 {
        Some(format!("\\{}", char::from_u32(c).unwrap()))
    } else if (0xfdd0..=0xfddf).contains(&c) || c & 0xfffe == 0xfffe || OTHERS.contains(&c) {
        Some(format!("\\U{:08x}", c))
    } else {
        None
    }
}

/// How a name is shown.
pub fn escaped(fs: FsKind, name: &str, bar: bool) -> String {
    let one = |c: u32| match (escaped_character(c, bar), char::from_u32(c)) {
        (Some(s), _) => s,
        (None, Some(c)) => c.to_string(),
        (None, None) => format!("\\U{:08x}", c),
    };
    if fs == FsKind::Ext || fs.is_fat() && short_of(name).is_some() {
        // What is not UTF-8 is replaced; short names have no more than the code of a character.
        let text = |c: char| match c as u32 {
            c @ 0xf780..0xf800 if fs.is_fat() => c & 0xff,
            0xf780..0xf800 => 0xfffd,
            c => c,
        };
        name.chars().map(|c| one(text(c))).collect()
    } else {
        name.encode_utf16().map(|c| one(c as u32)).collect()
    }
}

/// Every node of a file system with its path as it is shown.
pub fn nodes<'a>(fs: &'a Fs, bar: bool) -> Vec<(String, &'a Node)> {
    fn visit<'a>(fs: &Fs, node: &'a Node, path: &str, bar: bool, out: &mut Vec<(String, &'a Node)>) {
        for c in &node.children {
            let path = format!("{}/{}", path, escaped(fs.kind, &c.name, bar));
            visit(fs, c, &path, bar, out);
        }
        out.push((if path.is_empty() { "/".to_string() } else { path.to_string() }, node));
    }
    let mut out = Vec::new();
    visit(fs, &fs.root, "", bar, &mut out);
    out
}

/// Compares lines in any order.
pub fn same_lines(what: &str, got: &str, mut want: Vec<String>) -> CaseResult {
    // Names may have what else would end a line; those are escaped.
    let mut lines: Vec<String> = got.split('\n').map(|l| l.to_string()).collect();
    check!(lines.pop().is_some_and(|l| l.is_empty()), "{}: the last line does not end", what);
    lines.sort();
    want.sort();
    for (i, l) in want.iter().enumerate() {
        match lines.get(i) {
            Some(got) if got == l => {}
            got => return fail(format!("{}: {:?}, expected {:?}", what, got, l)),
        }
    }
    check!(lines.len() == want.len(), "{}: a line {:?}", what, lines[want.len()]);
    Ok(())
}
