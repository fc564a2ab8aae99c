//! C75 the Python bindings.

use crate::common::*;
use crate::disk::*;
use crate::places::*;
use keramics_datetime::*;
use keramics_vfs::*;
use pbt::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

const SCRIPT: &str = include_str!("script.py");

/// The types that the bindings have.
fn python_type(t: &VfsType) -> Option<&'static str> {
    Some(match t {
        VfsType::Apm => "APM",
        VfsType::Ext => "EXT",
        VfsType::Ewf => "EWF",
        VfsType::Fake => "FAKE",
        VfsType::Gpt => "GPT",
        VfsType::Mbr => "MBR",
        VfsType::Os => "OS",
        VfsType::Qcow => "QCOW",
        VfsType::Vhd => "VHD",
        VfsType::Vhdx => "VHDX",
        _ => return None,
    })
}

fn hex(text: &str) -> String {
    text.bytes().map(|b| format!("{:02x}", b)).collect()
}

/// A location as it is given to the script, if the bindings have all of its types.
fn python_location(location: &VfsLocation) -> Option<String> {
    let own = format!("{}:{}", python_type(location.get_type())?, hex(&location.get_path().to_string()));
    match location.get_parent() {
        Some(parent) => Some(format!("{} {}", python_location(parent)?, own)),
        None => Some(own),
    }
}

fn time_text(t: Option<&DateTime>) -> Result<String, Stop> {
    Ok(match t {
        None | Some(DateTime::NotSet) => "None".to_string(),
        Some(DateTime::PosixTime32(t)) => format!("PosixTime32 {}", t.timestamp),
        Some(DateTime::PosixTime64Ns(t)) => format!("PosixTime64Ns {} {}", t.timestamp, t.fraction),
        Some(DateTime::Filetime(t)) => format!("Filetime {}", t.timestamp),
        Some(t) => return fail(format!("a time {:?}", t)),
    })
}

/// What the library says.
fn library_entry(location: &VfsLocation) -> Result<String, Stop> {
    Ok(match VfsResolver::current().get_file_entry_by_location(location) {
        Err(_) => "RuntimeError".to_string(),
        Ok(None) => "None".to_string(),
        Ok(Some(e)) => {
            let name = match e.get_name() {
                None => "-".to_string(),
                Some(n) => format!("={}", hex(&n.to_string())),
            };
            let mut text = name;
            for t in [e.get_modification_time(), e.get_access_time(), e.get_change_time(), e.get_creation_time()] {
                text.push('|');
                text.push_str(&time_text(t)?);
            }
            text
        }
    })
}

fn library_system(location: &VfsLocation) -> &'static str {
    match VfsResolver::current().open_file_system(location) {
        Ok(_) => "VfsFileSystem",
        Err(_) => "RuntimeError",
    }
}

/// What is stored, in the words of the script, with the time that is not (of the operating system).
fn stored(place: &Place) -> Result<Option<String>, Stop> {
    Ok(match &place.what {
        What::Part(_) => Some(format!("={}|None|None|None|None", hex(&place.location.get_path().to_string()[1..]))),
        What::Root(_) => Some("-|None|None|None|None".to_string()),
        What::Node(fs, node) if !place.root => {
            let mut text = format!("={}", hex(&node.name));
            for t in times_of(fs, node) {
                text.push('|');
                text.push_str(&time_text(t.as_ref())?);
            }
            Some(text)
        }
        _ => None,
    })
}

/// Asks the bindings, which give a line per question.
fn ask(g: &mut Gen, questions: &[(&'static str, VfsLocation)]) -> Result<Vec<String>, Stop> {
    let modules = Scratch::new();
    let library = std::env::current_exe().unwrap().parent().unwrap().join("libpykeramics.so");
    std::os::unix::fs::symlink(&library, modules.path.join("pykeramics.so")).unwrap();
    let mut child = Command::new("python3")
        .args(["-B", "-c", SCRIPT])
        .env("PYTHONPATH", &modules.path)
        .env("PYTHONUTF8", "1")
        .env("RUST_BACKTRACE", "0")
        .current_dir(&modules.path)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| panic!("harness: python3: {}", e));
    let mut input = String::new();
    for (what, location) in questions {
        let thread = if g.chance(1, 5) { "thread" } else { "main" };
        g.class_if(thread == "thread", "another thread");
        input.push_str(&format!("{} {} {}\n", thread, what, python_location(location).unwrap()));
    }
    let mut stdin = child.stdin.take().unwrap();
    let writer = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
    });
    let mut stderr = child.stderr.take().unwrap();
    let errors = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = stderr.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let mut bytes = Vec::new();
    let _ = child.stdout.take().unwrap().read_to_end(&mut bytes);
    let status = child.wait().unwrap();
    let _ = writer.join();
    let errors = errors.join().unwrap();
    check!(status.success(), "python3: {}: {}", status, errors);
    let lines: Vec<String> = String::from_utf8(bytes).map_err(|e| Stop::Fail(e.to_string()))?.split_terminator('\n').map(|l| l.to_string()).collect();
    check_eq!(lines.len(), questions.len(), "python3: lines: {}", errors);
    Ok(lines)
}

fn os(path: &std::path::Path) -> VfsLocation {
    new_os_vfs_location(path.to_str().unwrap())
}

fn disks(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let d = disk(g, Limits { depth: 1, large: false, odd: false, raw: false }, false);
    scratch.write(&d);
    let mut list = Vec::new();
    places(&d, &os(&scratch.path.join(&d.name)), &mut list);
    list.retain(|p| python_location(&p.location).is_some());
    if list.is_empty() {
        return discard();
    }
    g.note(|| format!("{:?}, {} layers, {} locations", d.wrap, d.layers.len(), list.len()));
    if list.iter().any(|p| matches!(p.what, What::Node(..)) && !p.root) {
        g.nontrivial();
    }
    // In any order, and again.
    let mut questions: Vec<(&'static str, VfsLocation)> = Vec::new();
    let mut stored_lines = Vec::new();
    for _ in 0..list.len() + g.usize(0, 4) {
        let p = &list[if questions.len() < list.len() { questions.len() } else { g.usize(0, list.len() - 1) }];
        questions.push((g.pick(&["entry", "entry", "entry", "other"]), p.location.clone()));
        stored_lines.push(stored(p)?);
    }
    for _ in 0..g.usize(0, 6) {
        let p = &list[g.usize(0, list.len() - 1)];
        let path = p.location.get_path().to_string();
        let t = p.location.get_type().clone();
        match g.below_or(4) {
            0 => {
                questions.push(("system", p.location.clone()));
                g.class("opens a file system");
            }
            1 => {
                // A name that is not there, or one in the place of another type.
                let absent = format!("{}/{}", path.trim_end_matches('/'), g.pick(&["no such name", "mbr1", "qcow0", "x"]));
                questions.push(("entry", p.location.new_with_parent(VfsPath::from_path(&t, &absent))));
                g.class("a path that is not there");
            }
            2 => {
                let other = g.pick(&[VfsType::Apm, VfsType::Ext, VfsType::Gpt, VfsType::Mbr, VfsType::Qcow, VfsType::Vhd, VfsType::Vhdx]).clone();
                let location = p.location.new_with_layer(&other, VfsPath::from_path(&other, "/"));
                questions.push((g.pick(&["entry", "system"]), location));
                g.class("a layer that need not be there");
            }
            3 => {
                let base = VfsLocation::new_base(&t, VfsPath::from_path(&t, &path));
                questions.push((g.pick(&["entry", "system"]), base));
                g.class("a base of another type");
            }
            _ => {
                let location = new_os_vfs_location(&scratch.path.join("no such file").to_string_lossy());
                questions.push((g.pick(&["entry", "system"]), location));
                g.class("a file that is not there");
            }
        }
        stored_lines.push(None);
    }
    answers(g, &questions, &stored_lines)
}

fn answers(g: &mut Gen, questions: &[(&'static str, VfsLocation)], stored_lines: &[Option<String>]) -> CaseResult {
    let got = ask(g, questions)?;
    for (i, (what, location)) in questions.iter().enumerate() {
        let want = if *what == "system" { library_system(location).to_string() } else { library_entry(location)? };
        check_eq!(got[i], want, "{} of {}: the library", what, shown(location));
        if let Some(want) = &stored_lines[i] {
            check_eq!(&got[i], want, "{} of {}: what is stored", what, shown(location));
        }
    }
    Ok(())
}

fn files(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let mut questions = Vec::new();
    let mut stored_lines = Vec::new();
    for i in 0..g.usize(1, 6) {
        let name = format!("{}{}", name(g, FsKind::Ext, false), i);
        let path = scratch.path.join(&name);
        let directory = g.bool();
        if directory {
            std::fs::create_dir(&path).unwrap();
        } else {
            std::fs::write(&path, "data").unwrap();
        }
        let mut stamp = || {
            let s = *g.pick(&[1i64, 0, -1, 1735977482, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000000, 5000000000]);
            let base = std::time::UNIX_EPOCH;
            let nano = *g.pick(&[0u32, 0, 1, 999999999, 123456789]);
            (if s < 0 { base - std::time::Duration::from_secs(s.unsigned_abs()) } else { base + std::time::Duration::from_secs(s as u64) }) + std::time::Duration::from_nanos(nano as u64)
        };
        let (m, a) = (stamp(), stamp());
        let file = std::fs::File::open(&path).unwrap();
        if file.set_times(std::fs::FileTimes::new().set_modified(m).set_accessed(a)).is_ok() {
            g.nontrivial();
        }
        g.class(if directory { "directory" } else { "file" });
        questions.push(("entry", os(&path)));
        stored_lines.push(None);
        if g.below_or(3) == 0 {
            questions.push((g.pick(&["entry", "system"]), os(&path.join("not there"))));
            stored_lines.push(None);
        }
    }
    answers(g, &questions, &stored_lines)
}

pub static C75: Property = Property {
    id: "C75",
    rule: "a file or directory in a file system; a file of which the times were set",
    assumptions: &["the Python that is installed"],
    facets: &[Facet { name: "disks", work: Work::Random(40, 1000), case: disks }, Facet { name: "files", work: Work::Random(10, 200), case: files }],
};
