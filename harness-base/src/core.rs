//! C07 data streams, C08 diagnostic formatting, C09 mediator.

use std::cell::RefCell;
use std::fs;
use std::io::{SeekFrom, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{mpsc, Arc, Barrier, Once, RwLock};
use std::thread;

use keramics_core::formatters::{debug_format_array, format_as_hexdump, format_as_string};
use keramics_core::mediator::{Mediator, MediatorReference};
use keramics_core::{open_fake_data_stream, open_os_data_stream, DataStreamReference, ErrorTrace, FakeDataStream};
use pbt::*;

use crate::hexdump::model_hexdump;

/// Directory for the files of the data stream checks, removed when the thread ends.
struct Scratch(PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static SCRATCH: RefCell<Option<Scratch>> = const { RefCell::new(None) };
}

fn scratch_file(data: &[u8], size: u64) -> PathBuf {
    SCRATCH.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            let id = format!("{:?}", thread::current().id()).replace(|c: char| !c.is_ascii_alphanumeric(), "");
            let path = std::env::temp_dir().join(format!("keramics-pbt-{}-{}", std::process::id(), id));
            fs::create_dir_all(&path).expect("scratch directory");
            *s = Some(Scratch(path));
        }
        let path = s.as_ref().unwrap().0.join("data");
        let mut file = fs::File::create(&path).expect("scratch file");
        file.write_all(data).expect("scratch file write");
        file.set_len(size).expect("scratch file size");
        path
    })
}

/// The byte array a stream of the given data and size stands for.
struct Model {
    data: Vec<u8>,
    size: u64,
    position: u64,
}

impl Model {
    fn expect(&self, length: usize) -> Vec<u8> {
        let remaining = self.size.saturating_sub(self.position);
        let n = (length as u64).min(remaining) as usize;
        (0..n as u64)
            .map(|i| {
                let p = self.position + i;
                if p < self.data.len() as u64 { self.data[p as usize] } else { 0 }
            })
            .collect()
    }

    /// The offset a seek refers to, when it is in the domain of 0 to 2^62.
    fn target(&self, kind: u64, value: i64) -> Option<u64> {
        let v = match kind {
            0 => value as i128,
            1 => self.size as i128 + value as i128,
            _ => self.position as i128 + value as i128,
        };
        if (0..=1i128 << 62).contains(&v) { Some(v as u64) } else { None }
    }
}

fn seek_from(kind: u64, value: i64) -> SeekFrom {
    match kind {
        0 => SeekFrom::Start(value as u64),
        1 => SeekFrom::End(value),
        _ => SeekFrom::Current(value),
    }
}

fn draw_seek(g: &mut Gen, m: &Model) -> (u64, i64) {
    let kind = g.below_or(2);
    // A target offset first, biased to the ends of the data and of the stream.
    let target = match g.below_or(if m.size > 1 << 16 { 6 } else { 5 }) {
        6 => {
            // An offset that has the same lower bits as the current one.
            m.position ^ 1 << g.range(16, 40)
        }
        0 => 0,
        1 => (m.size + g.below_or(8)).saturating_sub(4),
        2 => (m.data.len() as u64 + g.below_or(8)).saturating_sub(4),
        3 => m.size + g.below_or(1 << 20),
        _ => g.below_or(m.size.max(1)),
    };
    let value = match kind {
        0 => target as i64,
        1 => target as i64 - m.size as i64,
        _ => target as i64 - m.position as i64,
    };
    (kind, value)
}

fn read_size(g: &mut Gen, m: &Model) -> usize {
    if m.size > 1 << 16 && g.chance(1, 3) { g.usize(1, 150_000) } else { g.length(96, 16) }
}

fn run_stream(g: &mut Gen, stream: &DataStreamReference, m: &mut Model, what: &str) -> CaseResult {
    let steps = g.usize(1, 14);
    let mut moved = 0;
    for _ in 0..steps {
        match g.weighted(&[1, 5, 3, 4, 2, 2]) {
            0 => {
                let size = match stream.write().unwrap().get_size() {
                    Ok(size) => size,
                    Err(e) => return fail(format!("{}: get_size failed: {}", what, e)),
                };
                check_eq!(size, m.size, "{}: size", what);
            }
            1 | 4 => {
                let exact = g.chance(1, 3);
                let n = read_size(g, m);
                let want = m.expect(n);
                let at = m.position;
                let mut buffer = vec![0xa5u8; n];
                g.class_if((at + n as u64) > m.data.len() as u64 && at < m.data.len() as u64, "read across the end of the data");
                g.class_if((at + n as u64) > m.size && at < m.size, "read across the end of the stream");
                if exact {
                    let result = stream.write().unwrap().read_exact(&mut buffer);
                    check_eq!(result.is_ok(), want.len() == n, "{}: read_exact of {} bytes at {} of {}", what, n, at, m.size);
                    if result.is_err() {
                        // The position after a failed exact read is not specified.
                        check!(stream.write().unwrap().seek(SeekFrom::Start(at)).is_ok(), "{}: seek failed", what);
                        continue;
                    }
                } else {
                    match stream.write().unwrap().read(&mut buffer) {
                        Ok(count) => check_eq!(count, want.len(), "{}: bytes read of {} at {} of {}", what, n, at, m.size),
                        Err(e) => return fail(format!("{}: read of {} bytes at {} failed: {}", what, n, at, e)),
                    }
                }
                check_eq!(hex(&buffer[..want.len()]), hex(&want), "{}: data read at {}", what, at);
                m.position += want.len() as u64;
                moved += 1;
            }
            2 => {
                let (kind, value) = draw_seek(g, m);
                let target = m.target(kind, value).unwrap();
                match stream.write().unwrap().seek(seek_from(kind, value)) {
                    Ok(position) => check_eq!(position, target, "{}: position after {:?} from {} of {}", what, seek_from(kind, value), m.position, m.size),
                    Err(e) => return fail(format!("{}: {:?} failed: {}", what, seek_from(kind, value), e)),
                }
                g.class_if(target > m.size, "seek past the end");
                m.position = target;
            }
            3 => {
                let (kind, value) = draw_seek(g, m);
                let n = read_size(g, m);
                let target = m.target(kind, value).unwrap();
                let from = m.position;
                m.position = target;
                let want = m.expect(n);
                let mut buffer = vec![0x5au8; n];
                if g.bool() {
                    let result = stream.write().unwrap().read_exact_at_position(&mut buffer, seek_from(kind, value));
                    check_eq!(result.is_ok(), want.len() == n, "{}: read_exact_at_position of {} bytes at {:?} from {} of {}", what, n, seek_from(kind, value), from, m.size);
                    match result {
                        Ok(offset) => check_eq!(offset, target, "{}: offset of {:?} from {}", what, seek_from(kind, value), from),
                        Err(_) => {
                            check!(stream.write().unwrap().seek(SeekFrom::Start(target)).is_ok(), "{}: seek failed", what);
                            continue;
                        }
                    }
                } else {
                    match stream.write().unwrap().read_at_position(&mut buffer, seek_from(kind, value)) {
                        Ok(count) => check_eq!(count, want.len(), "{}: bytes read of {} at {:?} from {} of {}", what, n, seek_from(kind, value), from, m.size),
                        Err(e) => return fail(format!("{}: read at {:?} failed: {}", what, seek_from(kind, value), e)),
                    }
                }
                check_eq!(hex(&buffer[..want.len()]), hex(&want), "{}: data read at {}", what, target);
                m.position += want.len() as u64;
                moved += 1;
            }
            _ => {
                // Reading nothing.
                let mut buffer = [0u8; 0];
                match stream.write().unwrap().read(&mut buffer) {
                    Ok(0) => {}
                    other => return fail(format!("{}: an empty read gives {:?}", what, other)),
                }
            }
        }
    }
    if moved >= 2 {
        g.nontrivial();
    }
    g.note(|| format!("{}: {} steps, data {} bytes, size {}, final position {}", what, steps, m.data.len(), m.size, m.position));
    if m.size > 1 << 20 {
        return Ok(());
    }
    // The whole content, read in one go.
    let mut all = vec![1u8; m.size as usize + 3];
    match stream.write().unwrap().read_at_position(&mut all, SeekFrom::Start(0)) {
        Ok(count) => check_eq!(count as u64, m.size, "{}: whole content", what),
        Err(e) => return fail(format!("{}: reading the whole content failed: {}", what, e)),
    }
    m.position = 0;
    let want = m.expect(m.size as usize);
    check!(all[..want.len()] == want[..], "{}: the whole content differs from the data", what);
    Ok(())
}

fn draw_content(g: &mut Gen) -> (Vec<u8>, u64) {
    let length = g.length(600, 64);
    let data = g.blob(length);
    let size = match g.below_or(4) {
        0 | 1 => length as u64,
        2 => length as u64 + g.below_or(300),
        3 => length as u64 + g.below_or(4),
        _ => g.below_or(length as u64),
    };
    (data, size)
}

fn stream_fake(g: &mut Gen) -> CaseResult {
    let (data, size) = draw_content(g);
    let mut m = Model { data: data.clone(), size, position: 0 };
    m.data.truncate(size as usize);
    let stream: DataStreamReference = if size == data.len() as u64 && g.bool() {
        open_fake_data_stream(&data)
    } else {
        Arc::new(RwLock::new(FakeDataStream::new(&data, size)))
    };
    run_stream(g, &stream, &mut m, "fake data stream")
}

fn stream_file(g: &mut Gen) -> CaseResult {
    let (data, size) = draw_content(g);
    let path = scratch_file(&data, size);
    let mut m = Model { data, size, position: 0 };
    m.data.truncate(size as usize);
    let stream = match open_os_data_stream(&path) {
        Ok(stream) => stream,
        Err(e) => return fail(format!("opening a file failed: {}", e)),
    };
    run_stream(g, &stream, &mut m, "file data stream")
}

/// Streams of more than 16, and more than 32 bits of size.
fn stream_large(g: &mut Gen) -> CaseResult {
    let length = crate::encodings::large_size(g);
    let mut data = vec![0u8; length];
    Rng(g.u64()).fill(&mut data);
    let size = length as u64
        + match g.below_or(3) {
            0 => 0,
            1 => g.below_or(1 << 20),
            2 => (1 << 32) + g.below_or(1 << 17),
            _ => g.below_or(1 << 36),
        };
    g.class_if(size > 1 << 32, "more than 4 GiB");
    let mut m = Model { data, size, position: 0 };
    if g.chance(1, 3) {
        let path = scratch_file(&m.data, size);
        let stream = match open_os_data_stream(&path) {
            Ok(stream) => stream,
            Err(e) => return fail(format!("opening a file failed: {}", e)),
        };
        run_stream(g, &stream, &mut m, "file data stream")
    } else {
        let stream: DataStreamReference = Arc::new(RwLock::new(FakeDataStream::new(&m.data, size)));
        run_stream(g, &stream, &mut m, "fake data stream")
    }
}

/// Positioned reads of several threads on one shared stream do not disturb each other.
fn stream_shared(g: &mut Gen) -> CaseResult {
    let length = g.usize(64, 2048);
    let mut data = vec![0u8; length];
    Rng(g.u64()).fill(&mut data);
    let file = g.chance(1, 3);
    let stream = if file {
        match open_os_data_stream(&scratch_file(&data, length as u64)) {
            Ok(stream) => stream,
            Err(e) => return fail(format!("opening a file failed: {}", e)),
        }
    } else {
        open_fake_data_stream(&data)
    };
    let threads = g.usize(2, 4);
    let plans: Vec<Vec<(u64, usize)>> = (0..threads)
        .map(|_| (0..12).map(|_| (g.below_or(length as u64 + 8), g.usize(1, 96))).collect())
        .collect();
    g.nontrivial();
    g.note(|| format!("{} threads with 12 positioned reads each of {} bytes", threads, length));
    let barrier = Barrier::new(threads);
    let failures: Vec<String> = thread::scope(|scope| {
        let handles: Vec<_> = plans
            .iter()
            .map(|plan| {
                let (stream, data, barrier) = (&stream, &data, &barrier);
                scope.spawn(move || {
                    barrier.wait();
                    for (offset, size) in plan {
                        let mut buffer = vec![0u8; *size];
                        let start = (*offset as usize).min(data.len());
                        let end = (start + size).min(data.len());
                        let result = stream.write().unwrap().read_at_position(&mut buffer, SeekFrom::Start(*offset));
                        match result {
                            Ok(count) if count == end - start && buffer[..count] == data[start..end] => {}
                            Ok(count) => return Some(format!("read of {} bytes at {} of {} gives {} bytes: {}", size, offset, data.len(), count, hex(&buffer[..count.min(*size)]))),
                            Err(e) => return Some(format!("read of {} bytes at {} failed: {}", size, offset, e)),
                        }
                    }
                    None
                })
            })
            .collect();
        handles.into_iter().filter_map(|h| h.join().unwrap_or(Some("panic in a reader".to_string()))).collect()
    });
    check!(failures.is_empty(), "shared stream: {}", failures.join("; "));
    Ok(())
}

/// Offsets outside of 0 to 2^62 are rejected or leave nothing to read; the stream stays usable.
fn stream_out_of_range(g: &mut Gen) -> CaseResult {
    let length = g.usize(0, 64);
    let data = g.blob(length);
    let file = g.bool();
    let stream = if file {
        match open_os_data_stream(&scratch_file(&data, length as u64)) {
            Ok(stream) => stream,
            Err(e) => return fail(format!("opening a file failed: {}", e)),
        }
    } else {
        open_fake_data_stream(&data)
    };
    let back = g.range(1, 1 << 20) as i64;
    let pos = if g.bool() { SeekFrom::End(-(length as i64) - back) } else { SeekFrom::Current(-back) };
    g.nontrivial();
    g.note(|| format!("{} of {} bytes, {:?}", if file { "file" } else { "fake" }, length, pos));
    let result = no_panic(|| stream.write().unwrap().seek(pos))?;
    if result.is_ok() {
        let mut buffer = [0u8; 8];
        if let Ok(count) = no_panic(|| stream.write().unwrap().read(&mut buffer))? {
            check_eq!(count, 0, "bytes read after {:?} in {} bytes", pos, length);
        }
    }
    let mut buffer = vec![0u8; length];
    match stream.write().unwrap().read_at_position(&mut buffer, SeekFrom::Start(0)) {
        Ok(count) => {
            check_eq!(count, length, "bytes read after a rejected seek");
            check!(buffer == data, "the data differs after a rejected seek");
        }
        Err(e) => return fail(format!("reading after a rejected seek failed: {}", e)),
    }
    Ok(())
}

pub static C07: Property = Property {
    id: "C07",
    rule: "sequences of get_size, seek (start, end, current), read, exact and positioned reads over fake streams (data shorter than, equal to and longer than the size) and files, compared with a byte array and a position after every step, positioned reads of 2 to 4 threads on one shared stream, and seeks before the start; non-trivial: at least two reads in the sequence, two threads, or a seek out of range",
    assumptions: &["reads of regular files on the local file system are not interrupted", "offsets above 2^62 are outside of the domain"],
    facets: &[
        Facet { name: "fake", work: Work::Random(60_000, 1_000_000), case: stream_fake },
        Facet { name: "file", work: Work::Random(6_000, 80_000), case: stream_file },
        Facet { name: "shared", work: Work::Random(600, 10_000), case: stream_shared },
        Facet { name: "out_of_range", work: Work::Random(4_000, 50_000), case: stream_out_of_range },
        Facet { name: "large", work: Work::Random(400, 20_000), case: stream_large },
    ],
};

// Formatting.

/// Reads the bytes back from a hexdump.
fn parse_hexdump(text: &str, size: usize) -> Result<Vec<u8>, String> {
    let mut data: Vec<u8> = Vec::new();
    let mut repeat = false;
    let lines: Vec<&str> = text.split('\n').collect();
    let mut done = false;
    for line in lines {
        if line.is_empty() {
            done = true;
            continue;
        }
        if done {
            return Err(format!("text after the end: {:?}", line));
        }
        if line == "..." {
            if data.len() < 16 || repeat {
                return Err("a repetition without a line before".to_string());
            }
            repeat = true;
            continue;
        }
        let offset = usize::from_str_radix(line.get(0..8).ok_or("short line")?, 16).map_err(|e| e.to_string())?;
        if repeat {
            let last = data[data.len() - 16..].to_vec();
            while data.len() < offset {
                data.extend_from_slice(&last);
            }
            repeat = false;
        }
        if offset != data.len() {
            return Err(format!("offset {:#x} instead of {:#x}", offset, data.len()));
        }
        let ascii: Vec<char> = line.get(60..).ok_or("short line")?.chars().collect();
        for k in 0..16 {
            let column = 10 + 3 * k + if k >= 8 { 1 } else { 0 };
            let text = line.get(column..column + 2).ok_or("short line")?;
            if text == "  " {
                if ascii.len() != k {
                    return Err(format!("{} characters for {} values", ascii.len(), k));
                }
                break;
            }
            let b = u8::from_str_radix(text, 16).map_err(|e| e.to_string())?;
            let want = if (0x20..0x7f).contains(&b) { b as char } else { '.' };
            if ascii.get(k) != Some(&want) {
                return Err(format!("character {:?} for value {:#04x}", ascii.get(k), b));
            }
            data.push(b);
        }
    }
    if data.len() != size {
        return Err(format!("{} values instead of {}", data.len(), size));
    }
    Ok(data)
}

fn draw_dump_data(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 4) {
        let n = g.length(200, 16);
        return g.blob(n);
    }
    // Lines, with repetitions.
    let mut data = Vec::new();
    let lines = g.usize(0, 12);
    for _ in 0..lines {
        if data.len() >= 16 && g.chance(3, 5) {
            let last = data[data.len() - 16..].to_vec();
            let n = g.usize(1, 4);
            for _ in 0..n {
                data.extend_from_slice(&last);
            }
        } else {
            let line = if g.bool() { let b = g.u8(); vec![b; 16] } else { g.bytes(16) };
            data.extend_from_slice(&line);
        }
    }
    let rest = g.usize(0, 15);
    if rest > 0 {
        if data.len() >= 16 && g.bool() {
            let part = data[data.len() - 16..data.len() - 16 + rest].to_vec();
            data.extend_from_slice(&part);
        } else {
            let part = g.bytes(rest);
            data.extend_from_slice(&part);
        }
    }
    data
}

fn hexdump_case(g: &mut Gen) -> CaseResult {
    let data = draw_dump_data(g);
    let group = g.bool();
    let text = no_panic(|| format_as_hexdump(&data, group))?;
    g.nontrivial = data.len() > 16;
    g.class_if(text.contains("...\n"), "repeated lines");
    g.class_if(data.len() % 16 != 0, "partial line");
    g.note(|| format!("{} bytes, group {}: {}", data.len(), group, hex(&data)));
    match parse_hexdump(&text, data.len()) {
        Ok(parsed) => check!(parsed == data, "the hexdump of {} reads back as {}", hex(&data), hex(&parsed)),
        Err(e) => return fail(format!("the hexdump of {} (group {}) does not read back: {}\n{}", hex(&data), group, e, text)),
    }
    let want = model_hexdump(&data, group);
    check!(text == want, "hexdump of {} (group {}):\n{}expected:\n{}", hex(&data), group, text, want);
    Ok(())
}

fn hexdump_lengths(g: &mut Gen) -> CaseResult {
    let n = g.below_or(599);
    let (length, group) = ((n / 2) as usize, n % 2 == 1);
    let kind = g.below_or(2);
    let data: Vec<u8> = (0..length).map(|i| match kind { 0 => i as u8, 1 => 0x41, _ => (i / 32) as u8 }).collect();
    g.nontrivial = length > 16;
    g.note(|| format!("{} bytes, group {}", length, group));
    let text = no_panic(|| format_as_hexdump(&data, group))?;
    let want = model_hexdump(&data, group);
    check!(text == want, "hexdump of {} bytes (group {}):\n{}expected:\n{}", length, group, text, want);
    if !group {
        check_eq!(format_as_string(&data), data.iter().map(|b| format!("{:02x}", b)).collect::<String>(), "hexadecimal string");
    }
    Ok(())
}

/// Data of tens of thousands of bytes.
fn hexdump_large(g: &mut Gen) -> CaseResult {
    let length = crate::encodings::large_size(g);
    let group = g.bool();
    let mut data = vec![0u8; length];
    if g.bool() {
        Rng(g.u64()).fill(&mut data);
        // Lines that repeat.
        for _ in 0..g.usize(0, 6) {
            let at = g.usize(0, length / 16 - 1) * 16;
            let end = (at + g.usize(1, 20_000)).min(length);
            let b = g.u8();
            data[at..end].fill(b);
        }
    }
    let text = no_panic(|| format_as_hexdump(&data, group))?;
    let want = model_hexdump(&data, group);
    let line = text.lines().zip(want.lines()).position(|(a, b)| a != b);
    check!(text == want, "hexdump of {} bytes (group {}): {} lines expected {}, line {:?} differs", length, group, text.lines().count(), want.lines().count(), line);
    g.nontrivial();
    g.class_if(group, "group");
    g.note(|| format!("{} bytes, group {}", length, group));
    Ok(())
}

fn model_array(values: &[String]) -> String {
    if values.is_empty() {
        return "[]".to_string();
    }
    if values.iter().all(|v| *v == values[0]) {
        return format!("[{}; {}]", values[0], values.len());
    }
    if values.len() > 16 {
        let rows: Vec<String> = values.chunks(16).map(|c| c.join(", ")).collect();
        return format!("[\n        {}\n    ]", rows.join(",\n        "));
    }
    format!("[{}]", values.join(", "))
}

fn array_case(g: &mut Gen) -> CaseResult {
    let n = match g.below_or(3) {
        0 => g.usize(0, 20),
        1 => g.usize(15, 50),
        2 => 16 * g.usize(1, 6) + g.usize(0, 2),
        _ => g.usize(0, 130),
    };
    let same = g.chance(1, 5);
    let base = g.u8();
    let mut values: Vec<String> = (0..n)
        .map(|i| if same { format!("{}", base) } else { format!("{}", (i as u64).wrapping_mul(7) % 251) })
        .collect();
    if same && n > 1 && g.bool() {
        let i = g.usize(0, n - 1);
        values[i] = "other".to_string();
    }
    g.nontrivial = n > 1;
    g.class_if(n > 16 && n % 16 != 0, "partial row");
    g.note(|| format!("{} values, same {}", n, same));
    let text = no_panic(|| debug_format_array(&values))?;
    check_eq!(text, model_array(&values), "array of {} values", n);
    Ok(())
}

fn error_trace_case(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 12);
    let messages: Vec<String> = (0..n)
        .map(|i| {
            let len = g.usize(0, 12);
            let text: String = (0..len).map(|_| (b' ' + g.below_or(94) as u8) as char).collect();
            format!("m{} {}", i, text)
        })
        .collect();
    let mut error = ErrorTrace::new(messages[0].clone());
    for m in messages[1..].iter() {
        error.add_frame(m.clone());
    }
    let mut same = ErrorTrace::new(messages[0].clone());
    for m in messages[1..].iter() {
        same.add_frame(m.clone());
    }
    g.nontrivial = n > 1;
    g.note(|| format!("{} messages", n));
    check_eq!(error.to_string(), messages.join("\n"), "messages of the error");
    let display: Vec<String> = messages.iter().enumerate().map(|(i, m)| format!("#{} {}", i, m)).collect();
    check_eq!(format!("{}", error), display.join("\n"), "display form of the error");
    check!(error == same, "equal errors differ");
    same.add_frame("other".to_string());
    check!(error != same, "different errors are equal");
    Ok(())
}

fn inner_failure(text: &str) -> Result<(), ErrorTrace> {
    Err(keramics_core::error_trace_new!(text))
}

fn outer_failure(text: &str, frame: &str) -> Result<(), ErrorTrace> {
    match inner_failure(text) {
        Err(mut error) => {
            keramics_core::error_trace_add_frame!(error, frame);
            Err(error)
        }
        Ok(()) => Ok(()),
    }
}

fn wrapped_failure(text: &str, cause: &str) -> ErrorTrace {
    let cause = std::io::Error::new(std::io::ErrorKind::Other, cause.to_string());
    keramics_core::error_trace_new_with_error!(text, cause)
}

fn error_macros_case(g: &mut Gen) -> CaseResult {
    let n = g.usize(0, 10);
    let a: String = (0..n).map(|_| (b'a' + g.below_or(25) as u8) as char).collect();
    let b = format!("{}{}", a, g.u8());
    g.nontrivial = n > 0;
    g.note(|| format!("{:?} {:?}", a, b));
    let error = outer_failure(&a, &b).unwrap_err();
    let text = error.to_string();
    let lines: Vec<&str> = text.split('\n').collect();
    check_eq!(lines.len(), 2, "number of messages");
    check!(lines[0].contains("inner_failure") && lines[0].ends_with(&format!(": {}", a)), "first message {:?}", lines[0]);
    check!(lines[1].contains("outer_failure") && lines[1].ends_with(&format!(": {}", b)), "second message {:?}", lines[1]);
    let text = wrapped_failure(&a, &b).to_string();
    check!(text.contains("wrapped_failure") && text.contains(&a) && text.ends_with(&b), "message with a cause {:?}", text);
    Ok(())
}

pub static C08: Property = Property {
    id: "C08",
    rule: "hexdumps of arbitrary data with repeated lines and partial lines, read back to the bytes and compared with a reference formatter in both modes, all lengths 0 to 299, arrays of 0 to 130 values, and error traces of 1 to 12 messages; non-trivial: more than one hexdump line, more than one value, more than one message",
    assumptions: &["the text layout is the one the documented examples and tests show"],
    facets: &[
        Facet { name: "hexdump", work: Work::Random(60_000, 1_000_000), case: hexdump_case },
        Facet { name: "hexdump_lengths", work: Work::Exhaustive(600), case: hexdump_lengths },
        Facet { name: "hexdump_large", work: Work::Random(60, 2_000), case: hexdump_large },
        Facet { name: "array", work: Work::Random(30_000, 300_000), case: array_case },
        Facet { name: "error_trace", work: Work::Random(20_000, 200_000), case: error_trace_case },
        Facet { name: "error_macros", work: Work::Random(5_000, 50_000), case: error_macros_case },
    ],
};

// Mediator.

enum Request {
    MakeCurrent(bool),
    Current,
    Hold,
    Held(usize),
    Stop,
}

/// Histories over several threads, each with its own current mediator.
fn mediator_threads(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 3);
    let mut workers = Vec::new();
    for _ in 0..n {
        let (request_send, request_receive) = mpsc::channel::<Request>();
        let (answer_send, answer_receive) = mpsc::channel::<bool>();
        let handle = thread::spawn(move || {
            let mut held: Vec<MediatorReference> = Vec::new();
            while let Ok(request) = request_receive.recv() {
                let answer = match request {
                    Request::MakeCurrent(debug) => {
                        let mediator = Mediator { debug_output: debug };
                        mediator.make_current();
                        debug
                    }
                    Request::Current => Mediator::current().debug_output,
                    Request::Hold => {
                        held.push(Mediator::current());
                        held[held.len() - 1].debug_output
                    }
                    Request::Held(i) => held[i].debug_output,
                    Request::Stop => break,
                };
                if answer_send.send(answer).is_err() {
                    break;
                }
            }
        });
        workers.push((request_send, answer_receive, handle));
    }
    // A new thread starts without debug output.
    let mut current = vec![false; n];
    let mut held: Vec<Vec<bool>> = vec![Vec::new(); n];
    let steps = g.usize(1, 16);
    let mut changes = 0;
    let mut outcome = Ok(());
    for _ in 0..steps {
        let t = if n > 1 { g.usize(0, n - 1) } else { 0 };
        let (request, want, what) = match g.weighted(&[3, 4, 2, 2]) {
            0 => {
                let debug = g.bool();
                current[t] = debug;
                changes += 1;
                (Request::MakeCurrent(debug), debug, "make current")
            }
            2 => {
                held[t].push(current[t]);
                (Request::Hold, current[t], "current mediator")
            }
            3 if !held[t].is_empty() => {
                let i = g.usize(0, held[t].len() - 1);
                (Request::Held(i), held[t][i], "held mediator")
            }
            _ => (Request::Current, current[t], "current mediator"),
        };
        let _ = workers[t].0.send(request);
        match workers[t].1.recv() {
            Ok(got) if got == want => {}
            Ok(got) => {
                outcome = fail(format!("{} of thread {} of {}: debug output {} expected {}", what, t, n, got, want));
                break;
            }
            Err(_) => {
                outcome = fail(format!("{} of thread {}: the thread ended", what, t));
                break;
            }
        }
    }
    g.nontrivial = n > 1 && changes > 0;
    g.note(|| format!("{} threads, {} steps, {} changes", n, steps, changes));
    for (send, _, handle) in workers {
        let _ = send.send(Request::Stop);
        let _ = handle.join();
    }
    outcome
}

/// Runs as a child process: prints through a mediator according to the arguments.
pub fn mediator_child(arguments: &[String]) {
    // Each argument: <debug><kind><hex of the data>.
    for argument in arguments {
        let bytes: Vec<u8> = (2..argument.len()).step_by(2).map(|i| u8::from_str_radix(&argument[i..i + 2], 16).unwrap()).collect();
        Mediator::new(argument.as_bytes()[0] == b'1').make_current();
        match argument.as_bytes()[1] {
            b't' => Mediator::current().debug_print(String::from_utf8(bytes).unwrap()),
            b'g' => Mediator::current().debug_print_data(&bytes, true),
            _ => Mediator::current().debug_print_data(&bytes, false),
        }
    }
}

fn mediator_output(g: &mut Gen) -> CaseResult {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {});
    let n = g.usize(1, 6);
    let mut arguments = Vec::new();
    let mut want = String::new();
    let mut printed = 0;
    for _ in 0..n {
        let debug = g.bool();
        let (kind, data) = match g.below_or(2) {
            0 => {
                let len = g.usize(0, 20);
                ('t', (0..len).map(|_| b' ' + g.below_or(94) as u8).collect::<Vec<u8>>())
            }
            1 => ('g', draw_dump_data(g)),
            _ => ('d', draw_dump_data(g)),
        };
        if debug {
            printed += 1;
            match kind {
                't' => want.push_str(std::str::from_utf8(&data).unwrap()),
                'g' => want.push_str(&model_hexdump(&data, true)),
                _ => want.push_str(&model_hexdump(&data, false)),
            }
        }
        arguments.push(format!("{}{}{}", debug as u8, kind, data.iter().map(|b| format!("{:02x}", b)).collect::<String>()));
    }
    g.nontrivial = printed > 0 && printed < n;
    g.note(|| format!("{} prints, {} with debug output", n, printed));
    let output = Command::new(std::env::current_exe().expect("own path"))
        .arg("mediator-child")
        .args(&arguments)
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&output.stdout).to_string();
    check!(output.status.success(), "printing {:?} ended with {:?}", arguments, output.status);
    check_eq!(text, want, "output of {:?}", arguments);
    Ok(())
}

pub static C09: Property = Property {
    id: "C09",
    rule: "histories of setting, taking and keeping the current mediator on 1 to 3 threads compared with one flag per thread, and prints of text and data with debug output on and off captured from a child process; non-trivial: more than one thread and a change, or prints both shown and suppressed",
    assumptions: &["standard output of a child process shows what was printed"],
    facets: &[
        Facet { name: "threads", work: Work::Random(4_000, 40_000), case: mediator_threads },
        Facet { name: "output", work: Work::Random(400, 3_000), case: mediator_output },
    ],
};
