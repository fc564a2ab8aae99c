//! C20 structure layouts: what is generated for a catalogue of declarations compared with a reader
//! that interprets the description of each declaration.

use std::io::SeekFrom;
use std::process::{Command, Stdio};

use keramics_core::mediator::Mediator;
use keramics_core::{open_fake_data_stream, DataStreamReference, ErrorTrace};
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32};
use keramics_types::{ByteString, Ucs2String, Utf16String, Uuid};
use pbt::*;

use crate::hexdump::model_hexdump;

#[path = "layout_catalogue.rs"]
mod catalogue;

use catalogue::CATALOGUE;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Format {
    Plain,
    Hex,
    Char,
}

#[derive(Clone, Copy, Debug)]
pub enum Condition {
    Greater(usize),
    AtLeast(usize),
    Differs(usize),
    Equal(usize),
}

impl Condition {
    fn holds(&self, size: usize) -> bool {
        match self {
            Condition::Greater(n) => size > *n,
            Condition::AtLeast(n) => size >= *n,
            Condition::Differs(n) => size != *n,
            Condition::Equal(n) => size == *n,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Int { size: usize, signed: bool },
    Bits { size: usize, shift: u32 },
    FatDate,
    FatTimeDate,
    FatTimeDate10Ms,
    Filetime,
    PosixTime32,
    Uuid,
    ByteString(usize),
    Ucs2String(usize),
    Utf16String(usize),
    Struct(usize, usize),
}

pub struct F {
    name: &'static str,
    kind: Kind,
    be: bool,
    format: Format,
    modifiers: &'static [(char, u64)],
    count: Option<usize>,
    bits: u32,
    condition: Option<Condition>,
    offset: usize,
}

pub struct S {
    name: &'static str,
    size: usize,
    debug: fn(&[u8]) -> String,
    read: fn(&DataStreamReference, SeekFrom) -> Result<Vec<u8>, ErrorTrace>,
    fields: &'static [F],
}

/// The outcome of reading a structure from data: what reads a structure passes it on.
pub fn outcome_of(data: &[u8]) -> Result<(), ErrorTrace> {
    if data.len() > 1 && data[0] == 0xee {
        return Err(keramics_core::error_trace_new!("Unsupported data"));
    }
    Ok(())
}

fn size_of(kind: &Kind) -> usize {
    match kind {
        Kind::Int { size, .. } | Kind::Bits { size, .. } => *size,
        Kind::FatDate => 2,
        Kind::FatTimeDate | Kind::PosixTime32 => 4,
        Kind::FatTimeDate10Ms => 5,
        Kind::Filetime => 8,
        Kind::Uuid => 16,
        Kind::ByteString(n) => *n,
        Kind::Ucs2String(n) | Kind::Utf16String(n) => n * 2,
        Kind::Struct(_, size) => *size,
    }
}

fn end_of(f: &F) -> usize {
    f.offset + size_of(&f.kind) * f.count.unwrap_or(1)
}

fn unsigned(data: &[u8], be: bool) -> u64 {
    let mut value: u64 = 0;
    for i in 0..data.len() {
        let byte = if be { data[i] } else { data[data.len() - 1 - i] };
        value = value << 8 | byte as u64;
    }
    value
}

/// Brings a value back to the range of its type.
fn wrap(value: i128, size: usize, signed: bool) -> i128 {
    let bits = size as u32 * 8;
    let low = value & ((1i128 << bits) - 1);
    if signed && low >> (bits - 1) & 1 == 1 {
        low - (1i128 << bits)
    } else {
        low
    }
}

fn modify(mut value: i128, modifiers: &[(char, u64)], size: usize, signed: bool) -> i128 {
    for (op, operand) in modifiers {
        let n = *operand as i128;
        value = match op {
            '&' => value & n,
            '|' => value | n,
            '^' => value ^ n,
            '>' => value >> n,
            '<' => value << n,
            '%' => value % n,
            '/' => value / n,
            '+' => value + n,
            _ => unreachable!(),
        };
        value = wrap(value, size, signed);
    }
    value
}

fn format_int(value: i128, format: Format, width: usize, size: usize) -> String {
    match format {
        Format::Plain => value.to_string(),
        Format::Hex => {
            let digits = format!("{:x}", wrap(value, size, false));
            format!("0x{}{}", "0".repeat(width.saturating_sub(digits.len())), digits)
        }
        Format::Char => (value as u8 as char).to_string(),
    }
}

fn element(f: &F, data: &[u8]) -> String {
    match f.kind {
        Kind::Int { size, signed } => {
            let value = wrap(unsigned(data, f.be) as i128, size, signed);
            format_int(modify(value, f.modifiers, size, signed), f.format, size * 2, size)
        }
        Kind::Bits { size, shift } => {
            let value = unsigned(data, f.be) as i128 >> shift & ((1i128 << f.bits) - 1);
            format_int(modify(value, f.modifiers, size, false), f.format, (f.bits as usize).div_ceil(4), size)
        }
        Kind::FatDate => FatDate::from_bytes(data).to_string(),
        Kind::FatTimeDate => FatTimeDate::from_bytes(data).to_string(),
        Kind::FatTimeDate10Ms => FatTimeDate10Ms::from_bytes(data).to_string(),
        Kind::Filetime => Filetime::from_bytes(data).to_string(),
        Kind::PosixTime32 if f.be => PosixTime32::from_be_bytes(data).to_string(),
        Kind::PosixTime32 => PosixTime32::from_le_bytes(data).to_string(),
        Kind::Uuid if f.be => Uuid::from_be_bytes(data).to_string(),
        Kind::Uuid => Uuid::from_le_bytes(data).to_string(),
        Kind::ByteString(_) => format!("\"{}\"", ByteString::from(data).to_string()),
        Kind::Ucs2String(_) if f.be => format!("\"{}\"", Ucs2String::from_be_bytes(data).to_string()),
        Kind::Ucs2String(_) => format!("\"{}\"", Ucs2String::from_le_bytes(data).to_string()),
        Kind::Utf16String(_) if f.be => format!("\"{}\"", Utf16String::from_be_bytes(data).to_string()),
        Kind::Utf16String(_) => format!("\"{}\"", Utf16String::from_le_bytes(data).to_string()),
        Kind::Struct(..) => unreachable!(),
    }
}

fn array(values: &[String]) -> String {
    if values.is_empty() {
        return "[]".to_string();
    }
    if values.iter().all(|v| *v == values[0]) {
        return format!("[{}; {}]", values[0], values.len());
    }
    if values.len() <= 16 {
        return format!("[{}]", values.join(", "));
    }
    let lines: Vec<String> = values.chunks(16).map(|line| format!("        {}", line.join(", "))).collect();
    format!("[\n{}\n    ]", lines.join(",\n"))
}

/// The description of the data of a structure.
fn describe(s: &S, data: &[u8]) -> String {
    let mut text = format!("{} {{\n", s.name);
    for f in s.fields {
        if f.condition.map_or(false, |c| !c.holds(data.len())) {
            continue;
        }
        let size = size_of(&f.kind);
        let at = |i: usize| &data[f.offset + i * size..f.offset + (i + 1) * size];
        match (f.kind, f.count) {
            (Kind::Struct(i, _), None) => {
                text.push_str(&format!("    {}: ", f.name));
                for line in describe(&CATALOGUE[i], at(0)).lines() {
                    text.push_str(&format!("    {}\n", line));
                }
            }
            (Kind::Struct(i, _), Some(count)) => {
                text.push_str(&format!("    {}: [\n", f.name));
                for n in 0..count {
                    for line in describe(&CATALOGUE[i], at(n)).lines() {
                        text.push_str(&format!("        {}\n", line));
                    }
                }
                text.push_str("    ],\n");
            }
            (_, None) => text.push_str(&format!("    {}: {},\n", f.name, element(f, at(0)))),
            (_, Some(count)) => {
                let values: Vec<String> = (0..count).map(|n| element(f, at(n))).collect();
                text.push_str(&format!("    {}: {},\n", f.name, array(&values)));
            }
        }
    }
    text.push_str("}\n\n");
    text
}

/// The sizes of data that contains every field it is described to contain.
fn sizes(s: &S) -> Vec<usize> {
    (0..s.size + 9).filter(|size| s.fields.iter().all(|f| f.condition.map_or(false, |c| !c.holds(*size)) || end_of(f) <= *size)).collect()
}

fn gen_data(g: &mut Gen, len: usize) -> Vec<u8> {
    match g.below_or(3) {
        0 => g.bytes(len),
        1 => g.blob(len),
        2 => {
            // Bytes that have meaning as characters and as small numbers.
            (0..len).map(|_| *g.pick(&[0, 1, 0x20, 0x41, 0x7a, 0x7f, 0x80, 0xd8, 0xff])).collect()
        }
        _ => {
            let byte = g.u8();
            let mut data = vec![byte; len];
            if len > 0 && g.bool() {
                let i = g.usize(0, len - 1);
                data[i] = g.u8();
            }
            data
        }
    }
}

fn layout_debug(g: &mut Gen) -> CaseResult {
    let i = g.usize(0, CATALOGUE.len() - 1);
    let s = &CATALOGUE[i];
    let valid = sizes(s);
    let len = if g.chance(1, 2) && valid.contains(&s.size) { s.size } else { *g.pick(&valid) };
    let data = gen_data(g, len);
    classify(g, s, len);
    g.note(|| format!("{} with {} bytes: {}", s.name, len, hex(&data)));
    let got = no_panic(|| (s.debug)(&data))?;
    check_eq!(got, describe(s, &data), "description of {} with {}", s.name, hex(&data));
    Ok(())
}

fn classify(g: &mut Gen, s: &S, len: usize) {
    let mut kinds = 0;
    for f in s.fields {
        match f.kind {
            Kind::Bits { .. } => g.class("bit fields"),
            Kind::Struct(..) => g.class("nested structure"),
            Kind::Int { .. } => kinds |= 1,
            _ => kinds |= 2,
        }
        g.class_if(f.count.is_some(), "array");
        g.class_if(!f.modifiers.is_empty(), "modifier");
        g.class_if(f.condition.map_or(false, |c| c.holds(len)), "conditional fields shown");
        g.class_if(f.condition.map_or(false, |c| !c.holds(len)), "conditional fields left out");
    }
    let _ = kinds;
    if s.fields.len() > 1 {
        g.nontrivial();
    }
}

fn layout_read(g: &mut Gen) -> CaseResult {
    let i = g.usize(0, CATALOGUE.len() - 1);
    let s = &CATALOGUE[i];
    let total = match g.below_or(3) {
        0 => s.size + g.usize(0, 64),
        1 => s.size,
        2 => g.usize(0, s.size),
        _ => s.size * 2 + g.usize(0, 64),
    };
    let mut data = gen_data(g, total);
    let stream = open_fake_data_stream(&data);
    let offset = match g.below_or(2) {
        0 if total > s.size => g.usize(0, total - s.size),
        1 => 0,
        _ => g.usize(0, total),
    };
    if g.chance(1, 6) && offset < total {
        data[offset] = 0xee;
    }
    let stream = if data.get(offset) == Some(&0xee) { open_fake_data_stream(&data) } else { stream };
    let start = g.usize(0, total);
    stream.write().unwrap().seek(SeekFrom::Start(start as u64)).expect("seek");
    let position = match g.below_or(2) {
        0 => SeekFrom::Start(offset as u64),
        1 => SeekFrom::End(offset as i64 - total as i64),
        _ => SeekFrom::Current(offset as i64 - start as i64),
    };
    let enough = offset + s.size <= total;
    g.class_if(!enough, "not enough data");
    g.class_if(s.size > 0 && enough && offset > 0, "inside the data");
    if enough && total > s.size && s.size > 0 || !enough {
        g.nontrivial();
    }
    g.note(|| format!("{} of {} bytes from {:?} of {} bytes", s.name, s.size, position, total));
    let what = format!("reading {} of {} bytes at {:?} of {} bytes", s.name, s.size, position, total);
    match no_panic(|| (s.read)(&stream, position))? {
        Ok(got) => {
            check!(enough, "{} succeeded", what);
            check!(outcome_of(&got).is_ok(), "{} hides that the data was rejected", what);
            check_eq!(got, data[offset..offset + s.size].to_vec(), "{}", what);
        }
        Err(e) => {
            check!(!enough || outcome_of(&data[offset..offset + s.size]).is_err(), "{} failed: {}", what, e.to_string());
        }
    }
    Ok(())
}

/// Runs as a child process: reads a structure with debug output.
pub fn layout_child(arguments: &[String]) {
    let s = &CATALOGUE[arguments[0].parse::<usize>().unwrap()];
    let offset: u64 = arguments[1].parse().unwrap();
    let h = &arguments[3];
    let data: Vec<u8> = (0..h.len()).step_by(2).map(|i| u8::from_str_radix(&h[i..i + 2], 16).unwrap()).collect();
    Mediator::new(arguments[2] == "1").make_current();
    let stream = open_fake_data_stream(&data);
    let _ = (s.read)(&stream, SeekFrom::Start(offset));
}

fn layout_output(g: &mut Gen) -> CaseResult {
    let i = g.usize(0, CATALOGUE.len() - 1);
    let s = &CATALOGUE[i];
    if !sizes(s).contains(&s.size) {
        return discard();
    }
    let offset = g.usize(0, 40);
    let debug = g.chance(5, 6);
    let mut data = gen_data(g, offset);
    let structure = gen_data(g, s.size);
    data.extend_from_slice(&structure);
    let rest = g.usize(0, 10);
    data.extend_from_slice(&vec![0x55; rest]);
    let mut want = String::new();
    if debug {
        want.push_str(&format!("{} data of size: {} at offset: {} (0x{:08x})\n", s.name, s.size, offset, offset));
        want.push_str(&model_hexdump(&structure, true));
        want.push_str(&describe(s, &structure));
        g.nontrivial();
    }
    g.note(|| format!("{} with debug output {}", s.name, debug));
    let output = Command::new(std::env::current_exe().expect("own path"))
        .args(["layout-child", &i.to_string(), &offset.to_string(), if debug { "1" } else { "0" }])
        .arg(data.iter().map(|b| format!("{:02x}", b)).collect::<String>())
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("child process");
    check!(output.status.success(), "reading {} with debug output ended with {:?}", s.name, output.status);
    check_eq!(String::from_utf8_lossy(&output.stdout).to_string(), want, "debug output of reading {}", s.name);
    Ok(())
}

pub static C20: Property = Property {
    id: "C20",
    rule: "110 generated declarations (integers, bit fields, timestamps, strings, arrays, nested structures, modifiers, formats, byte orders, conditional groups) on generated data, compared with an interpreter of their descriptions; non-trivial: more than one field, a read inside larger data or of too little data, or a print with debug output on",
    assumptions: &["dates, identifiers and strings print as their own types print (decided by C04-C06 and C14-C17)"],
    facets: &[
        Facet { name: "debug", work: Work::Random(200_000, 4_000_000), case: layout_debug },
        Facet { name: "read", work: Work::Random(100_000, 2_000_000), case: layout_read },
        Facet { name: "output", work: Work::Random(600, 6_000), case: layout_output },
    ],
};
