//! C19 signature scanning.

use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};
use pbt::*;

#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
enum Kind {
    Header,
    Footer,
    Unbound,
}

#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
struct Sig {
    kind: Kind,
    offset: usize,
    pattern: Vec<u8>,
}

impl Sig {
    /// Offset of the match in the data, when it matches there. `at` is for unbound signatures.
    fn matches(&self, data: &[u8], at: usize) -> bool {
        let start = match self.kind {
            Kind::Header => self.offset,
            Kind::Footer => match data.len().checked_sub(self.offset) {
                Some(v) => v,
                None => return false,
            },
            Kind::Unbound => at,
        };
        start == at && start + self.pattern.len() <= data.len() && data[start..start + self.pattern.len()] == self.pattern[..]
    }

    fn position(&self, size: usize) -> Option<usize> {
        match self.kind {
            Kind::Header => Some(self.offset),
            Kind::Footer => size.checked_sub(self.offset),
            Kind::Unbound => None,
        }
    }
}

fn gen_byte(g: &mut Gen, alphabet: u64) -> u8 {
    match alphabet {
        0 => *g.pick(b"ab"),
        1 => *g.pick(b"abc\0"),
        2 => *g.pick(b"\0\xff\x01Mz "),
        _ => g.u8(),
    }
}

fn gen_signatures(g: &mut Gen, alphabet: u64, max: usize, kinds: &[Kind]) -> Vec<Sig> {
    let n = g.usize(1, max);
    let mut out: Vec<Sig> = Vec::new();
    let spread = *g.pick(&[0usize, 3, 12, 64]);
    for _ in 0..n {
        let kind = *g.pick(kinds);
        let mut sig = if !out.is_empty() && g.chance(1, 3) {
            // Close to an existing one.
            let mut s = g.pick(&out).clone();
            s.kind = kind;
            match g.below_or(3) {
                0 => {
                    let b = gen_byte(g, alphabet);
                    s.pattern.push(b);
                }
                1 => {
                    let i = g.usize(0, s.pattern.len() - 1);
                    s.pattern[i] = gen_byte(g, alphabet);
                }
                2 => s.offset += g.usize(0, 2),
                _ => {
                    if s.pattern.len() > 1 {
                        s.pattern.pop();
                    }
                }
            }
            s
        } else {
            let len = if g.chance(1, 6) { g.usize(1, 16) } else { g.usize(1, 5) };
            let pattern = (0..len).map(|_| gen_byte(g, alphabet)).collect();
            Sig { kind, offset: g.usize(0, spread), pattern }
        };
        match kind {
            Kind::Unbound => sig.offset = 0,
            Kind::Footer => sig.offset = sig.offset.max(sig.pattern.len()),
            Kind::Header => {}
        }
        if !out.contains(&sig) {
            out.push(sig);
        }
    }
    out
}

/// Signatures of one type of which every byte is also required at its place by another one.
fn number_covered(signatures: &[Sig], kind: Kind) -> usize {
    let own: Vec<&Sig> = signatures.iter().filter(|s| s.kind == kind).collect();
    let largest = own.iter().map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    let place = |s: &Sig| match kind {
        Kind::Header => s.offset,
        Kind::Footer => largest - s.offset,
        Kind::Unbound => 0,
    };
    own.iter()
        .enumerate()
        .filter(|(i, s)| {
            s.pattern.iter().enumerate().all(|(k, b)| {
                let at = place(s) + k;
                own.iter().enumerate().any(|(j, o)| {
                    j != *i && at >= place(o) && o.pattern.get(at - place(o)) == Some(b)
                })
            })
        })
        .count()
}

fn build(signatures: &[Sig]) -> Result<Option<Scanner>, Stop> {
    let mut scanner = Scanner::new();
    for (i, s) in signatures.iter().enumerate() {
        let kind = match s.kind {
            Kind::Header => PatternType::BoundToStart,
            Kind::Footer => PatternType::BoundToEnd,
            Kind::Unbound => PatternType::Unbound,
        };
        scanner.add_signature(Signature::new(&format!("s{}", i), kind, s.offset, &s.pattern));
    }
    if scanner.build().is_err() {
        let ambiguous = [Kind::Header, Kind::Footer, Kind::Unbound]
            .iter()
            .any(|k| number_covered(signatures, *k) >= 2);
        if !ambiguous {
            return fail(format!("unable to build a scanner of {:?}", signatures));
        }
        return Ok(None);
    }
    Ok(Some(scanner))
}

/// Results: offset and index of the signature.
fn results(context: &ScanContext, signatures: &[Sig]) -> Result<HashMap<u64, usize>, Stop> {
    let mut out = HashMap::new();
    for (offset, signature) in context.results.iter() {
        let index: usize = match signature.identifier.strip_prefix('s').and_then(|v| v.parse().ok()) {
            Some(v) => v,
            None => return fail(format!("unknown identifier {:?}", signature.identifier)),
        };
        let s = match signatures.get(index) {
            Some(s) => s,
            None => return fail(format!("unknown identifier {:?}", signature.identifier)),
        };
        let kind = match signature.pattern_type {
            PatternType::BoundToStart => Kind::Header,
            PatternType::BoundToEnd => Kind::Footer,
            PatternType::Unbound => Kind::Unbound,
        };
        check_eq!((kind, signature.pattern_offset, &signature.pattern), (s.kind, s.offset, &s.pattern), "signature {}", index);
        out.insert(*offset, index);
    }
    Ok(out)
}

fn sound(found: &HashMap<u64, usize>, signatures: &[Sig], data: &[u8]) -> CaseResult {
    for (offset, index) in found.iter() {
        check!(
            *offset <= data.len() as u64 && signatures[*index].matches(data, *offset as usize),
            "reported {:?} at offset {} where it does not match in {}", signatures[*index], offset, hex(data)
        );
    }
    Ok(())
}

/// If any bound signature of a kind matches, one of them is reported.
fn complete_bound(found: &HashMap<u64, usize>, signatures: &[Sig], data: &[u8], kind: Kind) -> Result<bool, Stop> {
    let matching: Vec<&Sig> = signatures
        .iter()
        .filter(|s| s.kind == kind && s.position(data.len()).is_some_and(|p| s.matches(data, p)))
        .collect();
    if matching.is_empty() {
        return Ok(false);
    }
    let positions: BTreeSet<usize> = matching.iter().map(|s| s.position(data.len()).unwrap()).collect();
    check!(
        positions.iter().any(|p| found.contains_key(&(*p as u64))),
        "none of {:?} is reported in {} (data size {}), reported {:?}", matching, hex(data), data.len(), found
    );
    Ok(true)
}

fn complete_unbound(found: &HashMap<u64, usize>, signatures: &[Sig], data: &[u8]) -> Result<usize, Stop> {
    let mut count = 0;
    for s in signatures.iter().filter(|s| s.kind == Kind::Unbound) {
        if s.pattern.len() > data.len() {
            continue;
        }
        for at in 0..=data.len() - s.pattern.len() {
            if !s.matches(data, at) {
                continue;
            }
            count += 1;
            let end = at + s.pattern.len();
            let overlap = found.iter().any(|(o, i)| {
                let o = *o as usize;
                signatures[*i].kind == Kind::Unbound && o < end && at < o + signatures[*i].pattern.len()
            });
            check!(overlap, "{:?} at offset {} is not reported in {}, reported {:?}", s, at, hex(data), found);
        }
    }
    Ok(count)
}

fn gen_data(g: &mut Gen, signatures: &[Sig], alphabet: u64, minimum: usize) -> Vec<u8> {
    let extra = if g.chance(1, 4) { g.usize(0, 300) } else { g.usize(0, 24) };
    let len = minimum + extra;
    let mut data: Vec<u8> = if g.bool() {
        (0..len).map(|_| gen_byte(g, alphabet)).collect()
    } else {
        let b = gen_byte(g, alphabet);
        vec![b; len]
    };
    let n = g.usize(0, 4);
    for _ in 0..n {
        let s = g.pick(signatures).clone();
        let limit = len.saturating_sub(s.pattern.len());
        let at = match s.position(len) {
            Some(p) if !g.chance(1, 4) => p,
            _ => {
                if g.chance(1, 4) { limit } else { g.usize(0, limit) }
            }
        };
        for (k, b) in s.pattern.iter().enumerate() {
            if at + k < len {
                data[at + k] = *b;
            }
        }
        if g.chance(1, 5) && len > 0 {
            // A near miss.
            let k = (at + g.usize(0, s.pattern.len() - 1)).min(len - 1);
            data[k] = data[k].wrapping_add(1);
        }
    }
    data
}

fn footer_range(signatures: &[Sig]) -> usize {
    signatures.iter().filter(|s| s.kind == Kind::Footer).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0)
}

fn note(g: &mut Gen, signatures: &[Sig], data: &[u8]) {
    g.note(|| {
        format!(
            "signatures {:?} data ({} bytes) {}",
            signatures.iter().map(|s| format!("{:?}@{}:{}", s.kind, s.offset, hex(&s.pattern))).collect::<Vec<_>>(),
            data.len(),
            hex(data)
        )
    });
}

const ALL: &[Kind] = &[Kind::Header, Kind::Footer, Kind::Unbound];

/// The data in a single buffer.
fn single_buffer(g: &mut Gen) -> CaseResult {
    let alphabet = g.below_or(3);
    let kinds: &[Kind] = match g.below_or(3) {
        0 => &[Kind::Header],
        1 => &[Kind::Footer],
        2 => &[Kind::Unbound],
        _ => ALL,
    };
    let signatures = gen_signatures(g, alphabet, 8, kinds);
    let covering = g.chance(5, 6);
    let data = gen_data(g, &signatures, alphabet, if covering { footer_range(&signatures) } else { 0 });
    note(g, &signatures, &data);
    let scanner = match build(&signatures)? {
        Some(s) => s,
        None => {
            g.class("ambiguous signatures");
            return Ok(());
        }
    };
    let mut context = ScanContext::new(&scanner, data.len() as u64);
    context.scan_buffer(&data);
    check_eq!(context.data_offset, data.len() as u64, "data offset after the scan");
    let found = results(&context, &signatures)?;
    sound(&found, &signatures, &data)?;
    let header = complete_bound(&found, &signatures, &data, Kind::Header)?;
    let footer = if data.len() >= footer_range(&signatures) {
        complete_bound(&found, &signatures, &data, Kind::Footer)?
    } else {
        false
    };
    let unbound = complete_unbound(&found, &signatures, &data)?;
    g.class_if(header, "header match");
    g.class_if(footer, "footer match");
    g.class_if(unbound > 0, "unbound match");
    g.class_if(unbound > 1, "several unbound matches");
    g.class_if(signatures.len() > 1, "more than one signature");
    if signatures.len() > 1 && (header || footer || unbound > 0) {
        g.nontrivial();
    }
    Ok(())
}

/// The header range and the footer range only, as the format scanner does.
fn header_and_footer(g: &mut Gen) -> CaseResult {
    let alphabet = g.below_or(3);
    let signatures = gen_signatures(g, alphabet, 10, &[Kind::Header, Kind::Footer]);
    let data = gen_data(g, &signatures, alphabet, footer_range(&signatures));
    note(g, &signatures, &data);
    let scanner = match build(&signatures)? {
        Some(s) => s,
        None => {
            g.class("ambiguous signatures");
            return Ok(());
        }
    };
    let size = data.len() as u64;
    let mut context = ScanContext::new(&scanner, size);
    let header_end = signatures.iter().filter(|s| s.kind == Kind::Header).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    check!(context.header_range_size >= header_end as u64, "header range size {} smaller than {}", context.header_range_size, header_end);
    let footer_start = signatures.iter().filter(|s| s.kind == Kind::Footer).map(|s| s.offset).max().unwrap_or(0);
    check!(context.footer_range_size >= footer_start as u64, "footer range size {} smaller than {}", context.footer_range_size, footer_start);
    if size < context.footer_range_size {
        return Ok(());
    }
    let n = (context.header_range_size as usize).min(data.len());
    context.data_offset = 0;
    context.scan_buffer(&data[..n]);
    let offset = size - context.footer_range_size;
    context.data_offset = offset;
    context.scan_buffer(&data[offset as usize..]);
    let found = results(&context, &signatures)?;
    sound(&found, &signatures, &data)?;
    let header = complete_bound(&found, &signatures, &data, Kind::Header)?;
    let footer = complete_bound(&found, &signatures, &data, Kind::Footer)?;
    g.class_if(header, "header match");
    g.class_if(footer, "footer match");
    if header || footer {
        g.nontrivial();
    }
    Ok(())
}

/// The data in consecutive buffers of any size.
fn buffers(g: &mut Gen) -> CaseResult {
    let alphabet = g.below_or(3);
    let signatures = gen_signatures(g, alphabet, 6, ALL);
    let data = gen_data(g, &signatures, alphabet, 0);
    note(g, &signatures, &data);
    let scanner = match build(&signatures)? {
        Some(s) => s,
        None => {
            g.class("ambiguous signatures");
            return Ok(());
        }
    };
    let mut context = ScanContext::new(&scanner, data.len() as u64);
    let mut at = 0;
    let mut chunks = Vec::new();
    let large = g.bool();
    while at < data.len() {
        let n = if large { g.usize(1, 64) } else { g.usize(0, 9) }.min(data.len() - at);
        if n == 0 && chunks.last() == Some(&0) {
            at += 1;
            context.scan_buffer(&data[at - 1..at]);
            chunks.push(1);
            continue;
        }
        context.scan_buffer(&data[at..at + n]);
        check_eq!(context.data_offset, (at + n) as u64, "data offset");
        at += n;
        chunks.push(n);
    }
    g.note(|| format!("buffers of {:?}", chunks));
    let found = results(&context, &signatures)?;
    sound(&found, &signatures, &data)?;
    // Unbound signatures that lie in one buffer are found.
    let mut start = 0;
    for n in chunks.iter() {
        for s in signatures.iter().filter(|s| s.kind == Kind::Unbound) {
            for at in start..start + n {
                let end = at + s.pattern.len();
                if end > start + n || !s.matches(&data, at) {
                    continue;
                }
                let overlap = found.iter().any(|(o, i)| {
                    let o = *o as usize;
                    o < end && at < o + signatures[*i].pattern.len()
                });
                check!(overlap, "{:?} at offset {} is not reported, buffers {:?}, reported {:?}", s, at, chunks, found);
            }
        }
        start += n;
    }
    // A first buffer that has the header range finds the header.
    let header_end = signatures.iter().filter(|s| s.kind == Kind::Header).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    let first = chunks.iter().find(|n| **n > 0).copied().unwrap_or(0);
    if first >= header_end {
        complete_bound(&found, &signatures, &data, Kind::Header)?;
    }
    // A last buffer that has the footer range finds the footer.
    let last = chunks.iter().rev().find(|n| **n > 0).copied().unwrap_or(0);
    if last >= footer_range(&signatures) {
        complete_bound(&found, &signatures, &data, Kind::Footer)?;
    }
    g.class_if(!found.is_empty(), "match");
    g.class_if(found.len() > 1, "several matches");
    if chunks.len() > 1 && !found.is_empty() {
        g.nontrivial();
    }
    Ok(())
}

/// Signatures of real formats with distinct bytes: exactly the one that is there is reported, for
/// any order in which they were added, and the same scanner can be used again.
fn known_formats(g: &mut Gen) -> CaseResult {
    const FORMATS: &[(Kind, usize, &[u8])] = &[
        (Kind::Header, 0, b"EVF\x09\x0d\x0a\xff\x00"),
        (Kind::Header, 0, b"QFI\xfb"),
        (Kind::Header, 0, b"conectix"),
        (Kind::Header, 0, b"vhdxfile"),
        (Kind::Header, 0, b"sprs"),
        (Kind::Header, 3, b"NTFS    "),
        (Kind::Header, 54, b"FAT12   "),
        (Kind::Header, 54, b"FAT16   "),
        (Kind::Header, 82, b"FAT32   "),
        (Kind::Header, 512, b"EFI PART"),
        (Kind::Header, 1080, b"\x53\xef"),
        (Kind::Header, 0x8001, b"CD001"),
        (Kind::Header, 1024, b"H+\x00\x04"),
        (Kind::Header, 1024, b"HX\x00\x05"),
        (Kind::Header, 0, b"\x1f\x8b"),
        (Kind::Header, 0, b"PK\x03\x04"),
        (Kind::Footer, 512, b"conectix"),
        (Kind::Footer, 512, b"koly"),
        (Kind::Footer, 26, b"regf"),
    ];
    let mut signatures: Vec<Sig> = FORMATS.iter().map(|(k, o, p)| Sig { kind: *k, offset: *o, pattern: p.to_vec() }).collect();
    // Any order and any subset.
    for i in (1..signatures.len()).rev() {
        let j = g.usize(0, i);
        signatures.swap(i, j);
    }
    let n = g.usize(1, signatures.len());
    signatures.truncate(n);
    let scanner = match build(&signatures)? {
        Some(s) => Arc::new(s),
        None => return fail("unable to build the scanner"),
    };
    for _ in 0..g.usize(1, 3) {
        let size = 0x8000 + g.usize(520, 2000);
        let fill = *g.pick(&[0u8, 0xff, 0x20]);
        let mut data = vec![fill; size];
        let target = g.pick(&signatures).clone();
        let p = target.position(size).unwrap();
        data[p..p + target.pattern.len()].copy_from_slice(&target.pattern);
        let miss = g.chance(1, 4);
        if miss {
            let k = g.usize(0, target.pattern.len() - 1);
            data[p + k] ^= 0x80;
        }
        let mut context = ScanContext::new(&scanner, size as u64);
        let header = (context.header_range_size as usize).min(size);
        if g.bool() {
            context.scan_buffer(&data);
        } else {
            context.scan_buffer(&data[..header]);
            let offset = size as u64 - context.footer_range_size;
            context.data_offset = offset;
            context.scan_buffer(&data[offset as usize..]);
        }
        let found = results(&context, &signatures)?;
        if miss {
            check!(found.is_empty(), "{:?} with a changed byte is reported as {:?}", target, found);
            g.class("changed byte");
        } else {
            let want: HashMap<u64, usize> = [(p as u64, signatures.iter().position(|s| *s == target).unwrap())].into();
            check_eq!(found, want, "signature {:?} in {} bytes of 0x{:02x}", target, size, fill);
            g.class("match");
        }
    }
    g.note(|| format!("{} signatures", signatures.len()));
    if n > 1 {
        g.nontrivial();
    }
    Ok(())
}

/// Long patterns, large offsets, many signatures, and data of more than 4 GiB, of which only the
/// ranges at the start and the end are scanned.
fn large(g: &mut Gen) -> CaseResult {
    let mut rng = Rng(g.u64());
    let many = g.chance(1, 4);
    let n = if many { g.usize(200, 400) } else { g.usize(1, 6) };
    let (longest, spread) = if many { (12, 70) } else { *g.pick(&[(40, 0x12000), (300, 400), (900, 20), (255, 0), (257, 3)]) };
    let mut signatures: Vec<Sig> = Vec::new();
    for _ in 0..n {
        let kind = *g.pick(ALL);
        let len = if many { 6 + (rng.next() % 7) as usize } else if g.bool() { longest } else { g.usize(8, longest) };
        let mut pattern = vec![0u8; len];
        rng.fill(&mut pattern);
        let offset = if many { (rng.next() % (spread + 1)) as usize } else { g.usize(0, spread as usize) };
        let offset = match kind {
            Kind::Header => offset,
            Kind::Footer => offset.max(len),
            Kind::Unbound => 0,
        };
        signatures.push(Sig { kind, offset, pattern });
    }
    let scanner = match build(&signatures)? {
        Some(s) => s,
        None => return fail("unable to build the scanner"),
    };
    // At the start, at the end and in between one signature each.
    let header: Option<usize> = pick_kind(g, &signatures, Kind::Header);
    let footer: Option<usize> = pick_kind(g, &signatures, Kind::Footer);
    let header_size = signatures.iter().filter(|s| s.kind == Kind::Header).map(|s| s.offset + s.pattern.len()).max().unwrap_or(0);
    let footer_size = footer_range(&signatures);
    let wide = g.bool();
    let middle = if wide { 0 } else { g.usize(0, 3000) };
    let mut start = vec![0u8; header_size + middle + 1];
    rng.fill(&mut start);
    let mut end = vec![0u8; footer_size];
    rng.fill(&mut end);
    let gap = if wide { *g.pick(&[0u64, 1 << 16, 1 << 32, (1 << 32) - 100, 1 << 40]) } else { 0 };
    let size = start.len() as u64 + gap + end.len() as u64;
    let mut want: HashMap<u64, usize> = HashMap::new();
    if let Some(i) = header {
        let s = &signatures[i];
        start[s.offset..s.offset + s.pattern.len()].copy_from_slice(&s.pattern);
        want.insert(s.offset as u64, i);
    }
    if let Some(i) = footer {
        let s = &signatures[i];
        let at = footer_size - s.offset;
        end[at..at + s.pattern.len()].copy_from_slice(&s.pattern);
        want.insert(size - s.offset as u64, i);
    }
    if middle > 0 {
        if let Some(i) = pick_kind(g, &signatures, Kind::Unbound) {
            let s = &signatures[i];
            let limit = start.len() - header_size;
            if s.pattern.len() <= limit {
                let at = header_size + g.usize(0, limit - s.pattern.len());
                start[at..at + s.pattern.len()].copy_from_slice(&s.pattern);
                want.insert(at as u64, i);
                g.class("unbound match");
            }
        }
    }
    let miss = !want.is_empty() && g.chance(1, 5);
    if miss {
        // The last byte of a signature is different.
        let mut offsets: Vec<u64> = want.keys().copied().collect();
        offsets.sort();
        let offset = *g.pick(&offsets);
        let last = offset + signatures[want[&offset]].pattern.len() as u64 - 1;
        if offset < start.len() as u64 {
            start[last as usize] ^= 0x10;
        } else {
            end[(last - start.len() as u64 - gap) as usize] ^= 0x10;
        }
        want.remove(&offset);
        g.class("changed byte");
    }
    let mut context = ScanContext::new(&scanner, size);
    if wide {
        check!(context.header_range_size >= header_size as u64 && context.footer_range_size >= footer_size as u64, "ranges {} and {}", context.header_range_size, context.footer_range_size);
        context.scan_buffer(&start);
        context.data_offset = size - end.len() as u64;
        context.scan_buffer(&end);
    } else {
        context.scan_buffer(&[start, end].concat());
    }
    let found = results(&context, &signatures)?;
    check!(found == want, "{} signatures of up to {} bytes, data of {} bytes: reported {:?} expected {:?}", n, longest, size, found, want);
    g.class_if(many, "more than 200 signatures");
    g.class_if(size > 1 << 32, "more than 4 GiB");
    if !want.is_empty() {
        g.nontrivial();
    }
    g.note(|| format!("{} signatures of up to {} bytes, data of {} bytes", n, longest, size));
    Ok(())
}

fn pick_kind(g: &mut Gen, signatures: &[Sig], kind: Kind) -> Option<usize> {
    let own: Vec<usize> = (0..signatures.len()).filter(|i| signatures[*i].kind == kind).collect();
    if own.is_empty() { None } else { Some(*g.pick(&own)) }
}

/// A scan with debug output, which the engine discards.
fn debugged(g: &mut Gen) -> CaseResult {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            keramics_core::mediator::Mediator::new(false).make_current();
        }
    }
    let _off = Off;
    keramics_core::mediator::Mediator::new(true).make_current();
    if g.bool() { single_buffer(g) } else { buffers(g) }
}

pub const C19: Property = Property {
    id: "C19",
    rule: "A case builds a scanner of up to 10 signatures (large: up to 400; bound to start, bound to end, unbound; small alphabets make them overlap) and scans data with planted signatures and near misses in one buffer, as header and footer range, or in consecutive buffers; the results are compared with a naive search. Non-trivial: more than one signature or buffer and at least one match.",
    assumptions: &[
        "signatures are distinct and not empty; a set in which two or more signatures of a type are entirely covered by others may be refused",
        "if more than one bound signature of a type matches, at least one is reported; overlapping unbound matches may be left out",
        "header signatures are found in a first buffer that has the header range, footer signatures in a last buffer that has the footer range",
    ],
    facets: &[
        Facet { name: "single_buffer", work: Work::Random(150_000, 6_000_000), case: single_buffer },
        Facet { name: "header_and_footer", work: Work::Random(80_000, 3_000_000), case: header_and_footer },
        Facet { name: "buffers", work: Work::Random(80_000, 3_000_000), case: buffers },
        Facet { name: "known_formats", work: Work::Random(3_000, 100_000), case: known_formats },
        Facet { name: "debug_output", work: Work::Random(300, 6_000), case: debugged },
        Facet { name: "large", work: Work::Random(250, 8_000), case: large },
    ],
};
