//! Paths, locations, and files next to other files.

use crate::common::*;
use crate::disk::*;
use crate::places::*;
use keramics_formats::{FileResolver, PathComponent};
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use pbt::*;
use std::collections::hash_map::DefaultHasher;
use std::ffi::OsString;
use std::hash::{Hash, Hasher};
use std::os::unix::ffi::OsStringExt;
use std::path::PathBuf;

const ALL: [VfsType; 14] = [
    VfsType::Apm,
    VfsType::Ext,
    VfsType::Ewf,
    VfsType::Fake,
    VfsType::Fat,
    VfsType::Gpt,
    VfsType::Mbr,
    VfsType::Ntfs,
    VfsType::Os,
    VfsType::Qcow,
    VfsType::SparseImage,
    VfsType::Udif,
    VfsType::Vhd,
    VfsType::Vhdx,
];

fn separator(t: &VfsType) -> &'static str {
    match t {
        VfsType::Ntfs => "\\",
        _ => "/",
    }
}

/// A component that is shown as it is.
fn component(g: &mut Gen) -> String {
    let chars = ['a', 'B', '.', ' ', '-', 'z', '9', '~', 'é', 'ß', '文', '+'];
    let n = g.usize(1, 7);
    (0..n).map(|_| *g.pick(&chars)).collect::<String>() + if g.bool() { "x" } else { "." } + "y"
}

fn hash(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// The component as the file systems of the type have it.
fn as_file_name(t: &VfsType, name: &str) -> PathComponent {
    match t {
        VfsType::Ext => PathComponent::ByteString(ByteString::from(name)),
        VfsType::Ntfs => PathComponent::Ucs2String(Ucs2String::from(name)),
        _ => PathComponent::from(name),
    }
}

fn same_component(got: &PathComponent, want: &PathComponent, name: &str) -> bool {
    match (got, want) {
        (PathComponent::ByteString(a), PathComponent::ByteString(b)) => a.elements == b.elements,
        (PathComponent::Ucs2String(a), PathComponent::Ucs2String(b)) => a.elements == b.elements,
        (PathComponent::String(a), PathComponent::String(b)) => a == b,
        // A FAT path has either.
        (PathComponent::ByteString(_) | PathComponent::Ucs2String(_), _) => got.to_string() == name,
        _ => false,
    }
}

fn paths(g: &mut Gen) -> CaseResult {
    let t = g.pick(&ALL).clone();
    let s = separator(&t);
    let absolute = g.chance(3, 4);
    let n = g.usize(0, 6);
    let names: Vec<String> = (0..n).map(|_| component(g)).collect();
    g.note(|| format!("{} {:?}, absolute {}", t.as_str(), names, absolute));
    if n > 2 {
        g.nontrivial();
    }
    g.class(match t {
        VfsType::Os => "operating system path",
        VfsType::Ext => "ext path",
        VfsType::Ntfs => "NTFS path",
        VfsType::Fat => "FAT path",
        _ => "string path",
    });
    if !absolute && n == 0 {
        return Ok(());
    }
    let text = |names: &[String]| if absolute { format!("{}{}", s, names.join(s)) } else { names.join(s) };
    let path = VfsPath::from_path(&t, &text(&names));
    check_eq!(path.to_string(), text(&names), "string of the path");
    // The same from components.
    let first = if absolute { if t == VfsType::Os { "/" } else { "" } } else { names[0].as_str() };
    let mut parts = vec![first];
    parts.extend(names.iter().skip(if absolute { 0 } else { 1 }).map(|n| n.as_str()));
    let other = VfsPath::from_path_components(&t, &parts);
    check!(other == path && hash(&other) == hash(&path), "path of components {:?}: {:?}, path of a string: {:?}", parts, other, path);
    // Any cut of it.
    let cut = g.usize(if absolute { 0 } else { 1 }, n);
    let front = VfsPath::from_path(&t, &text(&names[..cut]));
    let rest: Vec<PathComponent> = names[cut..]
        .iter()
        .map(|n| match g.below_or(1) {
            1 if matches!(t, VfsType::Ext | VfsType::Ntfs) => as_file_name(&t, n),
            _ => PathComponent::from(n),
        })
        .collect();
    match front.new_with_join(&rest) {
        Ok(p) => check!(p == path && hash(&p) == hash(&path), "{:?} with {:?}: got {:?}, expected {:?}", front, rest, p, path),
        Err(e) => return fail(format!("{:?} with {:?}: {}", front, rest, e.to_string())),
    }
    check!((front == path) == (cut == n), "{:?} is {:?}", front, path);
    // Up to where it starts.
    let least = if absolute { 0 } else { 1 };
    let mut up = path.clone();
    for i in (least..n).rev() {
        let name = up.get_file_name();
        match &name {
            Some(c) => check!(same_component(c, &as_file_name(&t, &names[i]), &names[i]), "file name of {:?}: {:?}", up, c),
            None => return fail(format!("file name of {:?}: none", up)),
        }
        let parent = up.new_with_parent_directory();
        let want = VfsPath::from_path(&t, &text(&names[..i]));
        check!(parent == want, "parent of {:?}: got {:?}, expected {:?}", up, parent, want);
        match parent.new_with_join(&[name.unwrap()]) {
            Ok(p) => check_eq!(p, up, "parent with the file name"),
            Err(e) => return fail(format!("parent of {:?} with the file name: {}", up, e.to_string())),
        }
        up = parent;
    }
    if absolute {
        check!(up.get_file_name().is_none(), "file name of {:?}", up);
        check_eq!(up.new_with_parent_directory(), up, "parent of the root");
    }
    Ok(())
}

fn locations(g: &mut Gen) -> CaseResult {
    type Model = Vec<(VfsType, String)>;
    fn check_location(l: &VfsLocation, m: &Model) -> CaseResult {
        let mut at = Some(l);
        for (t, p) in m.iter().rev() {
            let Some(here) = at else { return fail(format!("{:?}: expected layers {:?}", l, m)) };
            check_eq!(here.get_type(), t, "type in {:?}", m);
            check_eq!(here.get_path().to_string(), p.clone(), "path in {:?}", m);
            at = here.get_parent();
        }
        check!(at.is_none(), "{:?}: expected layers {:?}", l, m);
        // From the bottom up.
        let got: Vec<String> = l.to_string().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
        let want: Vec<String> = m.iter().map(|(t, p)| format!("type: {}: path: {}", t.as_str(), p)).collect();
        check_eq!(got, want, "string of the location");
        Ok(())
    }
    let mut pool: Vec<(VfsLocation, Model)> = Vec::new();
    let n = g.usize(1, 14);
    for _ in 0..n {
        let t = g.pick(&ALL).clone();
        let names: Vec<String> = (0..g.usize(0, 2)).map(|_| g.pick(&["a", "b"]).to_string()).collect();
        let s = separator(&t);
        let path = |t: &VfsType| {
            let s = separator(t);
            format!("{}{}", s, names.join(s))
        };
        let (l, m) = match g.below_or(if pool.is_empty() { 1 } else { 5 }) {
            0 => (VfsLocation::new_base(&t, VfsPath::from_path(&t, &path(&t))), vec![(t.clone(), path(&t))]),
            1 => {
                let p = path(&VfsType::Os);
                (new_os_vfs_location(&p), vec![(VfsType::Os, p)])
            }
            2 | 3 => {
                let i = g.usize(0, pool.len() - 1);
                let (l, m) = &pool[i];
                let mut m = m.clone();
                m.push((t.clone(), format!("{}{}", s, names.join(s))));
                (l.new_with_layer(&t, VfsPath::from_path(&t, &path(&t))), m)
            }
            4 => {
                let i = g.usize(0, pool.len() - 1);
                let (l, m) = &pool[i];
                let mut m = m.clone();
                let t = l.get_type().clone();
                m.last_mut().unwrap().1 = path(&t);
                (l.new_with_parent(VfsPath::from_path(&t, &path(&t))), m)
            }
            _ => {
                let i = g.usize(0, pool.len() - 1);
                let (l, m) = &pool[i];
                match l.get_parent() {
                    Some(p) => (p.clone(), m[..m.len() - 1].to_vec()),
                    None => (l.clone(), m.clone()),
                }
            }
        };
        pool.push((l, m));
    }
    g.note(|| format!("{:?}", pool.iter().map(|p| &p.1).collect::<Vec<_>>()));
    if pool.iter().any(|p| p.1.len() > 2) {
        g.nontrivial();
        g.class("three layers");
    }
    for (l, m) in &pool {
        check_location(l, m)?;
        for (o, n) in &pool {
            check!((l == o) == (m == n), "{:?} is {:?}", l, o);
            if m == n {
                check!(hash(l) == hash(o), "hash of {:?}", l);
            }
        }
    }
    Ok(())
}

/// Reads through a resolver and compares.
fn resolved(g: &mut Gen, what: &str, r: &dyn FileResolver, components: &[PathComponent], want: Option<&Sparse>) -> CaseResult {
    match (r.get_data_stream(components), want) {
        (Ok(Some(s)), Some(w)) => check_stream(g, what, &mut *s.write().unwrap(), w, 512, &[]),
        (Ok(None), None) => Ok(()),
        (Ok(s), w) => fail(format!("{}: data stream: {}, expected {}", what, s.is_some(), w.is_some())),
        (Err(e), _) => fail(format!("{}: {}", what, e.to_string())),
    }
}

fn resolver(g: &mut Gen) -> CaseResult {
    let scratch = Scratch::new();
    let d = disk(g, Limits { depth: 1, large: false, odd: false, raw: false }, false);
    scratch.write(&d);
    let file = new_os_vfs_location(scratch.path.join(&d.name).to_str().unwrap());
    let mut list = Vec::new();
    places(&d, &file, &mut list);
    g.note(|| format!("{} ({:?}), {} locations", d.name, d.wrap, list.len()));
    let mut context = VfsContext::new();
    let mut number = 0;
    let roots: Vec<&Place> = list.iter().filter(|p| p.root && matches!(p.what, What::Node(..))).collect();
    for root in roots {
        let system = context.open_file_system(&root.location).map_err(|e| Stop::Fail(format!("{}: {}", shown(&root.location), e.to_string())))?;
        let What::Node(fs, top) = &root.what else { unreachable!() };
        // Of every file, from every directory above it.
        fn visit<'a>(n: &'a Node, names: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'a Node)>) {
            for c in &n.children {
                names.push(c.name.clone());
                out.push((names.clone(), c));
                visit(c, names, out);
                names.pop();
            }
        }
        let mut all = Vec::new();
        visit(top, &mut Vec::new(), &mut all);
        for (names, node) in &all {
            let cut = g.usize(0, names.len() - 1);
            let base = path_of(fs.kind, &names[..cut]);
            let what = format!("{} from {} components of {:?}", shown(&root.location), cut, names);
            let r = VfsFileResolver::new(&system, base);
            let components: Vec<PathComponent> = names[cut..].iter().map(PathComponent::from).collect();
            let data = Sparse::of(node.data.clone());
            resolved(g, &what, &r, &components, if node.kind == Kind::File { Some(&data) } else { None })?;
            number += 1;
            // Next to it.
            let mut gone = components.clone();
            let name = names.last().unwrap().clone() + "+0";
            if !all.iter().any(|o| key(fs.kind, o.0.last().unwrap()) == key(fs.kind, &name)) && name.encode_utf16().count() < 200 {
                *gone.last_mut().unwrap() = PathComponent::from(&name);
                resolved(g, &format!("{}: absent {:?}", what, name), &r, &gone, None)?;
            }
        }
    }
    // Files of the operating system.
    let system = context.open_file_system(&file).map_err(|e| Stop::Fail(e.to_string()))?;
    let r = new_vfs_file_resolver(&system, VfsPath::Os(scratch.path.clone())).map_err(|e| Stop::Fail(e.to_string()))?;
    for (name, data) in &d.files {
        resolved(g, &format!("file {:?}", name), r.as_ref().as_ref(), &[PathComponent::from(name)], Some(data))?;
    }
    resolved(g, "absent file", r.as_ref().as_ref(), &[PathComponent::from("no such file")], None)?;
    // A name that is no UTF-8.
    let mut bytes = d.name.as_bytes().to_vec();
    bytes.insert(0, *g.pick(&[0x80u8, 0xff, 0xc3]));
    let path: PathBuf = scratch.path.join(OsString::from_vec(bytes.clone()));
    // The names of segment files are strings.
    if d.files.len() == 1 && d.wrap != Wrap::Ewf && g.bool() && std::fs::rename(scratch.path.join(&d.name), &path).is_ok() {
        g.class("name that is not UTF-8");
        let path = VfsPath::Os(path);
        let components = match path.get_file_name() {
            Some(c) => [c],
            None => return fail("file name that is not UTF-8: none".to_string()),
        };
        resolved(g, "file with a name that is not UTF-8", r.as_ref().as_ref(), &components, Some(&d.files[0].1))?;
        let mut again = Vec::new();
        places(&d, &VfsLocation::new_base(&VfsType::Os, path), &mut again);
        for p in again {
            match context.get_file_entry_by_location(&p.location) {
                Ok(Some(mut e)) => check_entry(g, &p, &mut e)?,
                Ok(None) => return fail(format!("{}: no file entry", shown(&p.location))),
                Err(e) => return fail(format!("{}: {}", shown(&p.location), e.to_string())),
            }
        }
    }
    if number > 2 {
        g.nontrivial();
    }
    Ok(())
}

pub static C63: Property = Property {
    id: "C63",
    rule: "a path of three components; a location of three layers; three files in file systems",
    assumptions: &["one thread", "components without separators and characters that are shown escaped"],
    facets: &[
        Facet { name: "paths", work: Work::Random(400, 10000), case: paths },
        Facet { name: "locations", work: Work::Random(400, 10000), case: locations },
        Facet { name: "file resolver", work: Work::Random(40, 1000), case: resolver },
    ],
};
