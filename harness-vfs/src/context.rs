//! Contexts over histories, finders, and scanners.

use crate::common::*;
use crate::disk::*;
use crate::places::*;
use keramics_core::DataStreamReference;
use keramics_vfs::*;
use pbt::*;
use std::path::Path;

fn os(path: &Path) -> VfsLocation {
    new_os_vfs_location(path.to_str().unwrap())
}

fn note(g: &mut Gen, disk: &Disk, places: &[Place]) {
    let name = disk.name.clone();
    let n = places.len();
    let w = disk.wrap;
    let size = disk.top().len();
    g.note(|| format!("{} ({:?} of {} bytes), {} locations", name, w, size, n));
}

/// The main files of disks, all that is in them, and all of the other files.
fn all<'a>(disks: &'a [Disk], scratch: &Scratch) -> Vec<Place<'a>> {
    let mut out = Vec::new();
    for d in disks {
        for (name, data) in &d.files {
            out.push(Place { location: os(&scratch.path.join(name)), what: What::Os(data.clone()), root: false });
        }
        places(d, &os(&scratch.path.join(&d.name)), &mut out);
    }
    out
}

enum Context {
    Own(VfsContext),
    Current(VfsResolverReference),
}

impl Context {
    fn open(&mut self, l: &VfsLocation) -> Result<VfsFileSystemReference, String> {
        match self {
            Context::Own(c) => c.open_file_system(l),
            Context::Current(c) => c.open_file_system(l),
        }
        .map_err(|e| e.to_string())
    }

    fn entry(&mut self, l: &VfsLocation) -> Result<Option<VfsFileEntry>, String> {
        match self {
            Context::Own(c) => c.get_file_entry_by_location(l),
            Context::Current(c) => c.get_file_entry_by_location(l),
        }
        .map_err(|e| e.to_string())
    }

    fn stream(&mut self, l: &VfsLocation, name: Option<&str>) -> Result<Option<DataStreamReference>, String> {
        match self {
            Context::Own(c) => c.get_data_stream_by_path_and_name(l, name),
            Context::Current(c) => c.get_data_stream_by_path_and_name(l, name),
        }
        .map_err(|e| e.to_string())
    }
}

fn is_type(f: &VfsFileSystem, t: &VfsType) -> bool {
    matches!(
        (f, t),
        (VfsFileSystem::Apm(_), VfsType::Apm)
            | (VfsFileSystem::Ext(_), VfsType::Ext)
            | (VfsFileSystem::Ewf(_), VfsType::Ewf)
            | (VfsFileSystem::Fat(_), VfsType::Fat)
            | (VfsFileSystem::Gpt(_), VfsType::Gpt)
            | (VfsFileSystem::Mbr(_), VfsType::Mbr)
            | (VfsFileSystem::Ntfs(_), VfsType::Ntfs)
            | (VfsFileSystem::Os, VfsType::Os)
            | (VfsFileSystem::Qcow(_), VfsType::Qcow)
            | (VfsFileSystem::SparseImage(_), VfsType::SparseImage)
            | (VfsFileSystem::Udif(_), VfsType::Udif)
            | (VfsFileSystem::Vhd(_), VfsType::Vhd)
            | (VfsFileSystem::Vhdx(_), VfsType::Vhdx)
    )
}

const TYPES: [VfsType; 12] = [VfsType::Apm, VfsType::Ext, VfsType::Ewf, VfsType::Fat, VfsType::Gpt, VfsType::Mbr, VfsType::Ntfs, VfsType::Qcow, VfsType::SparseImage, VfsType::Udif, VfsType::Vhd, VfsType::Vhdx];

fn path_kind(p: &VfsPath) -> u8 {
    match p {
        VfsPath::Ext(_) => 0,
        VfsPath::Fat(_) => 1,
        VfsPath::Ntfs(_) => 2,
        VfsPath::Os(_) => 3,
        VfsPath::String(_) => 4,
    }
}

/// A path that is not there, next to or below one that is.
fn absent(g: &mut Gen, p: &Place) -> VfsPath {
    let extra = *g.pick(&["no such name", "zz.9", "0"]);
    let path = p.location.get_path();
    match &p.what {
        What::Os(_) => VfsPath::Os(match path {
            VfsPath::Os(p) => p.with_file_name(extra),
            _ => unreachable!(),
        }),
        What::Root(parts) => {
            let prefix = p.location.get_type().as_str().to_lowercase();
            let name = match g.below_or(8) {
                0 => format!("/{}0", prefix),
                1 => format!("/{}{}", prefix, parts.len() + 1),
                2 => format!("/{}", prefix),
                3 => format!("/{}-1", prefix),
                4 => format!("/{}1/a", prefix),
                5 => format!("/{}18446744073709551617", prefix),
                6 => format!("/{}+1", prefix),
                7 => format!("/{}01", prefix),
                _ => format!("{}1", prefix),
            };
            VfsPath::from_path(p.location.get_type(), &name)
        }
        What::Part(_) => VfsPath::from_path(p.location.get_type(), &format!("{}/{}", path.to_string(), extra)),
        What::Node(fs, node) => {
            let taken: Vec<String> = node.children.iter().map(|c| key(fs.kind, &c.name)).collect();
            let mut name = extra.to_string();
            if fs.kind == FsKind::Ext && g.bool() {
                if let Some(c) = node.children.first() {
                    name = c.name.to_uppercase();
                }
            }
            while taken.contains(&key(fs.kind, &name)) {
                name.push('9');
            }
            let component = keramics_formats::PathComponent::from(&name);
            path.new_with_join(&[component]).unwrap()
        }
    }
}

fn history(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let n = g.usize(1, 2);
    let mut disks: Vec<Disk> = Vec::new();
    for i in 0..n {
        let d = disk(g, Limits { depth: 2, large: i == 0, odd: false, raw: false }, false);
        if disks.iter().any(|o| o.files.iter().any(|f| d.files.iter().any(|h| h.0 == f.0))) {
            continue;
        }
        scratch.write(&d);
        disks.push(d);
    }
    let list = all(&disks, &scratch);
    note(g, &disks[0], &list);
    let deep = list.iter().any(|p| shown(&p.location).split(" EXT:").count() + shown(&p.location).split(" NTFS:").count() + shown(&p.location).split(" FAT:").count() > 4);
    g.class_if(deep, "file system in a file of a file system");
    if list.len() > 5 {
        g.nontrivial();
    }
    let own = g.bool();
    let mut context = if own { Context::Own(VfsContext::new()) } else { Context::Current(VfsResolver::current()) };
    let mut systems: Vec<(usize, VfsFileSystemReference)> = Vec::new();
    let mut entries: Vec<(usize, VfsFileEntry)> = Vec::new();
    let mut streams: Vec<(String, Sparse, DataStreamReference)> = Vec::new();
    let steps = g.usize(3, 30);
    let mut near = 0usize;
    for _ in 0..steps {
        near = if g.bool() { g.usize(0, list.len() - 1) } else { (near + g.usize(0, 2)) % list.len() };
        let p = &list[near];
        let what = shown(&p.location);
        match g.below_or(10) {
            0 => match context.open(&p.location) {
                Ok(f) => {
                    check!(is_type(&f, p.location.get_type()), "{}: opens as another type", what);
                    if g.chance(2, 3) {
                        systems.push((near, f));
                    }
                }
                Err(e) => return fail(format!("{}: open: {}", what, e)),
            },
            1 | 2 | 3 => match context.entry(&p.location) {
                Ok(Some(mut e)) => {
                    check_entry(g, p, &mut e)?;
                    if g.bool() {
                        entries.push((near, e));
                    }
                }
                Ok(None) => return fail(format!("{}: no file entry", what)),
                Err(e) => return fail(format!("{}: file entry: {}", what, e)),
            },
            4 => {
                let (name, want) = match &p.what {
                    What::Os(d) => (None, Some(d.clone())),
                    What::Part(d) => (None, Some(Sparse::of(d.to_vec()))),
                    What::Root(_) => (None, None),
                    What::Node(_, n) if n.kind == Kind::File => {
                        let i = g.usize(0, n.forks.len());
                        if i == 0 {
                            (None, Some(Sparse::of(n.data.clone())))
                        } else {
                            (Some(n.forks[i - 1].0.as_str()), Some(Sparse::of(n.forks[i - 1].1.clone())))
                        }
                    }
                    What::Node(..) => (None, None),
                };
                match (context.stream(&p.location, name), want) {
                    (Ok(Some(s)), Some(w)) => {
                        check_stream(g, &what, &mut *s.write().unwrap(), &w, 512, &[])?;
                        streams.push((what, w, s));
                    }
                    (Ok(None), None) => {}
                    (Ok(s), w) => return fail(format!("{}: data stream {:?}: {}, expected {}", what, name, s.is_some(), w.is_some())),
                    (Err(e), _) => return fail(format!("{}: data stream: {}", what, e)),
                }
            }
            5 => {
                // What is held.
                if let Some((what, w, s)) = streams.last() {
                    check_stream(g, what, &mut *s.write().unwrap(), w, 512, &[])?;
                }
                if !streams.is_empty() {
                    let i = g.usize(0, streams.len() - 1);
                    let (what, w, s) = &streams[i];
                    check_stream(g, what, &mut *s.write().unwrap(), w, 512, &[])?;
                }
                if !entries.is_empty() {
                    let i = g.usize(0, entries.len() - 1);
                    let (at, e) = &mut entries[i];
                    let at = *at;
                    check_entry(g, &list[at], e)?;
                }
                g.class("file entries and streams that are held");
            }
            6 => {
                if !systems.is_empty() {
                    let i = g.usize(0, systems.len() - 1);
                    let (at, f) = &systems[i];
                    let base = &list[*at];
                    // Of the same file system.
                    let same: Vec<&Place> = list.iter().filter(|o| o.location.get_parent() == base.location.get_parent() && o.location.get_type() == base.location.get_type()).collect();
                    let p = *g.pick(&same);
                    let what = shown(&p.location);
                    check_eq!(f.file_entry_exists(p.location.get_path()).map_err(|e| e.to_string()), Ok(true), "{}: exists", what);
                    match f.get_file_entry_by_path(p.location.get_path()) {
                        Ok(Some(mut e)) => check_entry(g, p, &mut e)?,
                        Ok(None) => return fail(format!("{}: no file entry by path", what)),
                        Err(e) => return fail(format!("{}: file entry by path: {}", what, e.to_string())),
                    }
                    let gone = absent(g, p);
                    check_eq!(f.file_entry_exists(&gone).map_err(|e| e.to_string()), Ok(false), "{}: exists {:?}", what, gone);
                    match f.get_file_entry_by_path(&gone) {
                        Ok(None) => {}
                        Ok(Some(_)) => return fail(format!("{}: there is {:?}", what, gone)),
                        Err(e) => return fail(format!("{}: file entry {:?}: {}", what, gone, e.to_string())),
                    }
                    // Another kind of path.
                    let other = &list[g.usize(0, list.len() - 1)];
                    if path_kind(other.location.get_path()) != path_kind(p.location.get_path()) {
                        check!(f.get_file_entry_by_path(other.location.get_path()).is_err(), "{}: file entry by path {:?}", what, other.location.get_path());
                        check!(f.file_entry_exists(other.location.get_path()).is_err(), "{}: exists by path {:?}", what, other.location.get_path());
                        g.class("path of another kind");
                    }
                    if !matches!(f.as_ref(), VfsFileSystem::Os) {
                        let root = same.iter().find(|p| p.root).unwrap();
                        match f.get_root_file_entry() {
                            Ok(Some(mut e)) => check_entry(g, root, &mut e)?,
                            Ok(None) => return fail(format!("{}: no root", what)),
                            Err(e) => return fail(format!("{}: root: {}", what, e.to_string())),
                        }
                    }
                }
            }
            7 => {
                let gone = p.location.new_with_parent(absent(g, p));
                check_eq!(&gone.get_parent(), &p.location.get_parent(), "{}: parent", what);
                match context.entry(&gone) {
                    Ok(None) => {}
                    Ok(Some(_)) => return fail(format!("{}: there is a file entry", shown(&gone))),
                    Err(e) => return fail(format!("{}: file entry: {}", shown(&gone), e)),
                }
                match context.stream(&gone, None) {
                    Ok(None) => {}
                    Ok(Some(_)) => return fail(format!("{}: there is a data stream", shown(&gone))),
                    Err(e) => return fail(format!("{}: data stream: {}", shown(&gone), e)),
                }
                match context.stream(&p.location, Some("no such fork")) {
                    Ok(None) => {}
                    Ok(Some(_)) => return fail(format!("{}: there is a data stream of a name", what)),
                    Err(e) => return fail(format!("{}: data stream of a name: {}", what, e)),
                }
                g.class("what is not there");
            }
            8 => {
                // The same data as another type.
                let t = g.pick(&TYPES).clone();
                let has_data = match &p.what {
                    What::Os(_) | What::Part(_) => true,
                    What::Node(_, n) => n.kind == Kind::File,
                    What::Root(_) => false,
                };
                let (parent, own) = if g.bool() && has_data {
                    (Some(&p.location), None)
                } else {
                    (p.location.get_parent(), Some(p.location.get_type()))
                };
                if let Some(parent) = parent {
                    let other = parent.new_with_layer(&t, VfsPath::from_path(&t, if t == VfsType::Ntfs { "\\" } else { "/" }));
                    match context.open(&other) {
                        Ok(f) => check!(is_type(&f, &t), "{}: opens as another type than {}", shown(&other), t.as_str()),
                        Err(e) => check!(own != Some(&t), "{}: {}", shown(&other), e),
                    }
                    g.class("opened as another type");
                }
            }
            9 => {
                if g.bool() {
                    systems.clear();
                    g.class("file systems opened again");
                } else {
                    entries.clear();
                    streams.clear();
                }
            }
            _ => {
                // All of the way, in a context of its own.
                let mut fresh = Context::Own(VfsContext::new());
                match fresh.entry(&p.location) {
                    Ok(Some(mut e)) => check_entry(g, p, &mut e)?,
                    Ok(None) => return fail(format!("{}: no file entry in a new context", what)),
                    Err(e) => return fail(format!("{}: file entry in a new context: {}", what, e)),
                }
            }
        }
    }
    Ok(())
}

fn os_entries(g: &mut Gen) -> CaseResult {
    use std::os::unix::net::UnixListener;
    let scratch = Scratch::new();
    let mut context = VfsContext::new();
    let n = g.usize(1, 6);
    for i in 0..n {
        let name = format!("{}{}", name(g, FsKind::Ext, false), i);
        let path = scratch.path.join(&name);
        let what = g.below_or(7);
        let size = g.length(5000, 600);
        let data = content(g, size);
        let mut listener = None;
        let want = match what {
            0 | 1 => {
                std::fs::write(&path, &data).unwrap();
                "file"
            }
            2 => {
                std::fs::create_dir(&path).unwrap();
                "directory"
            }
            3 => {
                listener = UnixListener::bind(&path).ok();
                if listener.is_none() {
                    continue;
                }
                g.class("socket");
                "socket"
            }
            4 => {
                if !std::process::Command::new("mkfifo").arg("--").arg(&path).status().map_or(false, |s| s.success()) {
                    continue;
                }
                g.class("named pipe");
                "named pipe"
            }
            // What a link points to is what is there.
            5 => {
                std::os::unix::fs::symlink("/dev/null", &path).unwrap();
                g.class("link to a character device");
                "character device"
            }
            6 => {
                let target = scratch.path.join(format!("target {}", i));
                std::fs::write(&target, &data).unwrap();
                std::os::unix::fs::symlink(&target, &path).unwrap();
                g.class("link to a file");
                "file"
            }
            _ => {
                std::os::unix::fs::symlink(scratch.path.join("nothing there"), &path).unwrap();
                g.class("link to nothing");
                ""
            }
        };
        let location = os(&path);
        let mut stamps = Vec::new();
        if what < 3 || what == 6 {
            let mut seconds = || *g.pick(&[1i64, 0, -1, 1735977482, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, -0x80000000, 5000000000]);
            let (m, a) = (seconds(), seconds());
            let nano = *g.pick(&[0u32, 0, 1, 999999999, 123456789]);
            let stamp = |s: i64| {
                let base = std::time::UNIX_EPOCH;
                (if s < 0 { base - std::time::Duration::from_secs(s.unsigned_abs()) } else { base + std::time::Duration::from_secs(s as u64) }) + std::time::Duration::from_nanos(nano as u64)
            };
            let file = std::fs::File::open(&path).unwrap();
            if file.set_times(std::fs::FileTimes::new().set_modified(stamp(m)).set_accessed(stamp(a))).is_ok() {
                let meta = std::fs::metadata(&path).unwrap();
                // The file system may keep less of them.
                if meta.modified().unwrap() == stamp(m) && meta.accessed().unwrap() == stamp(a) {
                    stamps = vec![(m, nano), (a, nano)];
                    g.nontrivial();
                    g.class_if(m > 0x7fffffff || a > 0x7fffffff, "time after 2038");
                    g.class_if(m < 0 || a < 0, "time before 1970");
                }
            }
        }
        match context.get_file_entry_by_location(&location) {
            Ok(None) if want.is_empty() => {}
            Ok(Some(entry)) => {
                check_eq!(type_name(&entry.get_file_type()), want, "{:?}: file type", path);
                check_eq!(entry.get_name(), Some(VfsString::OsString(path.file_name().unwrap().to_os_string())), "{:?}: name", path);
                for (t, got) in stamps.iter().zip([entry.get_modification_time(), entry.get_access_time()]) {
                    use keramics_datetime::*;
                    let seconds = match got {
                        Some(DateTime::PosixTime32(t)) => (t.timestamp as i64, 0),
                        Some(DateTime::PosixTime64Ns(t)) => (t.timestamp, t.fraction),
                        Some(DateTime::NotSet) => (0, 0),
                        other => return fail(format!("{:?}: time {:?}", path, other)),
                    };
                    check_eq!(seconds, *t, "{:?}: time", path);
                }
                let s = entry.get_data_stream().map_err(|e| Stop::Fail(format!("{:?}: {}", path, e.to_string())))?;
                check_eq!(s.is_some(), want == "file", "{:?}: there is a data stream", path);
                if let Some(s) = s {
                    check_stream(g, &name, &mut *s.write().unwrap(), &Sparse::of(data), 512, &[])?;
                }
                check_eq!(entry.get_number_of_data_forks().map_err(|e| e.to_string()), Ok((want == "file") as usize), "{:?}: data forks", path);
            }
            Ok(None) => return fail(format!("{:?}: no file entry", path)),
            Err(e) => return fail(format!("{:?}: file entry: {}", path, e.to_string())),
        }
        drop(listener);
        let file_system = VfsFileSystem::new(&VfsType::Os);
        check_eq!(file_system.file_entry_exists(location.get_path()).map_err(|e| e.to_string()), Ok(!want.is_empty()), "{:?}: is there", path);
    }
    Ok(())
}

// Finders.

fn finder(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let odd = g.bool();
    let d = disk(g, Limits { depth: 1, large: false, odd, raw: false }, false);
    scratch.write(&d);
    let disks = [d];
    let list = all(&disks, &scratch);
    note(g, &disks[0], &list);
    let mut context = VfsContext::new();
    for root in list.iter().filter(|p| p.root) {
        let f = context.open_file_system(&root.location).map_err(|e| Stop::Fail(format!("{}: {}", shown(&root.location), e.to_string())))?;
        let inside: Vec<&Place> = list.iter().filter(|o| o.location.get_parent() == root.location.get_parent() && o.location.get_type() == root.location.get_type()).collect();
        let what = shown(&root.location);
        if inside.len() > 4 {
            g.nontrivial();
        }
        let mut seen = vec![false; inside.len()];
        // The order is that of the sub file entries, what is below comes first.
        let mut order: Vec<Vec<String>> = Vec::new();
        let mut expected: Vec<Vec<String>> = Vec::new();
        fn visit(e: &mut VfsFileEntry, names: &mut Vec<String>, out: &mut Vec<Vec<String>>) -> Result<(), String> {
            for i in 0..e.get_number_of_sub_file_entries().map_err(|e| e.to_string())? {
                let mut sub = e.get_sub_file_entry_by_index(i).map_err(|e| e.to_string())?;
                names.push(format!("{:?}", sub.get_name()));
                visit(&mut sub, names, out)?;
                names.pop();
            }
            out.push(names.clone());
            Ok(())
        }
        let mut top = f.get_root_file_entry().ok().flatten().unwrap();
        visit(&mut top, &mut Vec::new(), &mut expected).map_err(|e| Stop::Fail(format!("{}: {}", what, e)))?;
        let mut finder = VfsFinder::new(&f);
        let mut count = 0;
        while let Some(result) = finder.next() {
            count += 1;
            check!(count <= inside.len(), "{}: the finder returns more than the {} file entries", what, inside.len());
            let (mut entry, components) = result.map_err(|e| Stop::Fail(format!("{}: {}", what, e.to_string())))?;
            check!(!components.is_empty() && components[0].is_empty(), "{}: components {:?}", what, components);
            order.push(components[1..].iter().map(|c| format!("{:?}", Some(c))).collect());
            let at = inside.iter().position(|p| match &p.what {
                What::Root(_) => components.len() == 1,
                What::Part(_) => components.len() == 2 && components[1] == VfsString::from(&p.location.get_path().to_string()[1..]),
                What::Node(fs, _) => {
                    let names = names_of(p.location.get_path());
                    names.len() + 1 == components.len() && names.iter().zip(&components[1..]).all(|(n, c)| same_name(c, &name_of(fs.kind, n)))
                }
                What::Os(_) => false,
            });
            match at {
                Some(at) => {
                    check!(!seen[at], "{}: {:?} twice", what, components);
                    seen[at] = true;
                    check_entry(g, inside[at], &mut entry)?;
                }
                None => return fail(format!("{}: components {:?} that are not there", what, components)),
            }
        }
        check!(finder.next().is_none() && finder.next().is_none(), "{}: the finder goes on after its end", what);
        if let Some(at) = seen.iter().position(|s| !s) {
            return fail(format!("{}: the finder does not return {}", what, shown(&inside[at].location)));
        }
        check_eq!(order, expected, "{}: order", what);
        let mut lists = inside.iter().filter(|p| matches!(&p.what, What::Node(_, n) if !n.children.is_empty())).count();
        lists += 0;
        g.class_if(lists > 2, "directories in directories");
    }
    Ok(())
}

fn names_of(path: &VfsPath) -> Vec<String> {
    match path {
        VfsPath::Ext(p) => p.components[1..].iter().map(|c| String::from_utf8(c.elements.clone()).unwrap()).collect(),
        VfsPath::Ntfs(p) => p.components[1..].iter().map(|c| String::from_utf16(&c.elements).unwrap()).collect(),
        VfsPath::Fat(p) => p.components[1..]
            .iter()
            .map(|c| match c {
                keramics_formats::fat::FatString::ByteString(b) => String::from_utf8(b.elements.clone()).unwrap(),
                keramics_formats::fat::FatString::Ucs2String(u) => String::from_utf16(&u.elements).unwrap(),
            })
            .collect(),
        _ => Vec::new(),
    }
}

// Scanners.

/// Locations with their depth, in order.
type Tree = Vec<(usize, String)>;

fn expect_volume(volume: &Volume, base: &VfsLocation, depth: usize, out: &mut Tree) {
    match volume {
        Volume::Raw => {}
        Volume::Fs(fs) => {
            let t = type_of(fs.kind);
            out.push((depth, shown(&base.new_with_layer(&t, path_of(fs.kind, &[])))));
        }
        Volume::Parts(scheme, parts) => {
            let (t, prefix) = scheme_type(*scheme);
            out.push((depth, shown(&base.new_with_layer(&t, VfsPath::from_path(&t, "/")))));
            for (i, p) in parts.iter().enumerate() {
                let l = base.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", prefix, i + 1)));
                out.push((depth + 1, shown(&l)));
                expect_volume(&p.volume, &l, depth + 2, out);
            }
        }
    }
}

fn seen(node: &VfsScanNode, depth: usize, out: &mut Tree) {
    out.push((depth, shown(&node.location)));
    for n in &node.sub_nodes {
        seen(n, depth + 1, out);
    }
}

fn scanner(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let d = disk(g, Limits { depth: 1, large: true, odd: false, raw: false }, false);
    scratch.write(&d);
    if ambiguous(&d.volume, d.top(), false) || ambiguous_files(&d) {
        return discard();
    }
    let disks = [d];
    let d = &disks[0];
    let list = all(&disks, &scratch);
    note(g, d, &list);
    let mut scanner = VfsScanner::new();
    scanner.build().map_err(|e| Stop::Fail(format!("build: {:?}", e)))?;
    let check_scan = |file: &VfsLocation, d: &Disk, scanner: &VfsScanner| -> CaseResult {
        let mut context = VfsScanContext::new();
        if let Err(e) = scanner.scan(&mut context, file) {
            return fail(format!("scan of {}: {}", shown(file), e.to_string()));
        }
        let mut got = Vec::new();
        match &context.root_node {
            Some(n) => seen(n, 0, &mut got),
            None => return fail(format!("scan of {}: no root node", shown(file))),
        }
        let mut want = vec![(0, shown(file))];
        let mut base = file.clone();
        let mut depth = 1;
        if let Some((t, prefix)) = wrap_type(d.wrap) {
            want.push((1, shown(&file.new_with_layer(&t, VfsPath::from_path(&t, "/")))));
            base = file.new_with_layer(&t, VfsPath::from_path(&t, &format!("/{}{}", prefix, d.layers.len())));
            depth = 2;
        }
        expect_volume(&d.volume, &base, depth, &mut want);
        check_eq!(got, want, "scan of {}", shown(file));
        // Every location that was found can be used.
        let mut todo = vec![context.root_node.as_ref().unwrap()];
        while let Some(n) = todo.pop() {
            check_eq!(n.is_empty(), n.sub_nodes.is_empty(), "scan node {}: is empty", shown(&n.location));
            check_eq!(n.is_file_system(), matches!(n.get_type(), VfsType::Ext | VfsType::Fat | VfsType::Ntfs), "scan node {}: is a file system", shown(&n.location));
            match VfsResolver::current().get_file_entry_by_location(&n.location) {
                Ok(Some(_)) => {}
                Ok(None) => return fail(format!("scan node {}: no file entry", shown(&n.location))),
                Err(e) => return fail(format!("scan node {}: {}", shown(&n.location), e.to_string())),
            }
            todo.extend(&n.sub_nodes);
        }
        Ok(())
    };
    if list.len() > 6 {
        g.nontrivial();
    }
    let twice = g.bool();
    for _ in 0..1 + twice as usize {
        check_scan(&os(&scratch.path.join(&d.name)), d, &scanner)?;
    }
    // What is no file.
    let mut context = VfsScanContext::new();
    let missing = os(&scratch.path.join("no such file"));
    check!(scanner.scan(&mut context, &missing).is_err() && context.root_node.is_none(), "scan of a file that is not there");
    let directory = os(&scratch.path);
    check!(scanner.scan(&mut context, &directory).is_err() && context.root_node.is_none(), "scan of a directory");
    Ok(())
}

pub static C60: Property = Property {
    id: "C60",
    rule: "a disk of more than five locations; a file of which the times were set",
    assumptions: &["one thread"],
    facets: &[Facet { name: "histories", work: Work::Random(40, 1000), case: history }, Facet { name: "operating system", work: Work::Random(40, 1000), case: os_entries }],
};

pub static C61: Property = Property {
    id: "C61",
    rule: "a file system of more than four file entries",
    assumptions: &["one thread"],
    facets: &[Facet { name: "finders", work: Work::Random(40, 1000), case: finder }],
};

pub static C62: Property = Property {
    id: "C62",
    rule: "a disk of more than six locations",
    assumptions: &["one thread"],
    facets: &[Facet { name: "scanners", work: Work::Random(40, 1000), case: scanner }],
};
