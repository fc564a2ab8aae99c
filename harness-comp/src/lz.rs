//! Streams of the byte oriented formats: ADC, LZNT1, LZVN.

use crate::common::*;
use crate::Stream;
use pbt::*;

pub fn adc(g: &mut Gen) -> Stream {
    let mut encoded = Vec::new();
    let mut out = Output::default();
    let steps = g.usize(1, 24);
    let far = g.chance(1, 6);
    if far {
        // Enough data for large distances.
        let n = g.usize(1, 600);
        for i in 0..n {
            let block: Vec<u8> = (0..128).map(|j| (i * 7 + j * 3 + i / 5) as u8).collect();
            encoded.push(0xff);
            encoded.extend_from_slice(&block);
            out.literal(&block);
        }
    }
    for _ in 0..steps {
        let kind = if out.len() == 0 { 0 } else { g.weighted(&[3, 3, 4]) };
        match kind {
            0 => {
                let n = edge(g, 1, 128);
                let data = literals(g, n);
                encoded.push(0x80 | (n - 1) as u8);
                encoded.extend_from_slice(&data);
                out.literal(&data);
            }
            1 => {
                let n = edge(g, 3, 18);
                let distance = edge(g, 1, out.len().min(1024));
                let d = distance - 1;
                encoded.push((((n - 3) << 2) | (d >> 8)) as u8);
                encoded.push(d as u8);
                out.repeat(distance, n);
                g.class("two byte match");
            }
            _ => {
                let n = edge(g, 4, 67);
                let distance = edge(g, 1, out.len().min(65536));
                let d = distance - 1;
                encoded.push(0x40 | (n - 4) as u8);
                encoded.extend_from_slice(&(d as u16).to_be_bytes());
                out.repeat(distance, n);
                g.class("three byte match");
                g.class_if(distance > 1024, "distance over 1024");
                g.class_if(distance == 65536, "distance 65536");
            }
        }
    }
    Stream::of(encoded, out)
}

/// One LZNT1 chunk of `size` output bytes, as (is compressed, bytes).
fn lznt1_chunk(g: &mut Gen, size: usize, expected: &mut Output) -> (bool, Vec<u8>) {
    let raw = |g: &mut Gen, out: &mut Output| {
        let data = g.blob(size);
        out.literal(&data);
        (false, data)
    };
    if g.chance(1, 5) {
        return raw(g, expected);
    }
    let mut out = Output::default();
    let mut elements: Vec<(bool, Vec<u8>)> = Vec::new();
    while out.len() < size {
        let position = out.len();
        let left = size - position;
        // [MS-XCA] 2.5.1.4: the position decides how the 16 bits are divided. 4 bits of
        // displacement up to position 16, one more for every doubling of the position.
        let mut displacement_bits = 4;
        while position > 1 << displacement_bits {
            displacement_bits += 1;
        }
        let length_bits = 16 - displacement_bits;
        let longest = ((1usize << length_bits) + 2).min(left);
        if position > 0 && longest >= 3 && g.chance(3, 5) {
            let n = if g.chance(1, 4) { longest } else { edge(g, 3, longest) };
            let distance = edge(g, 1, position.min(1 << displacement_bits));
            let tuple = ((distance - 1) << length_bits) | (n - 3);
            elements.push((true, (tuple as u16).to_le_bytes().to_vec()));
            out.repeat(distance, n);
            g.class_if(displacement_bits == 12, "12 bit displacement");
            g.class_if(distance == 1 << displacement_bits, "largest displacement");
        } else {
            let n = edge(g, 1, left.min(40));
            for b in literals(g, n) {
                elements.push((false, vec![b]));
                out.literal(&[b]);
            }
        }
    }
    let mut bytes = Vec::new();
    for group in elements.chunks(8) {
        let mut flags = 0u8;
        for (i, (is_match, _)) in group.iter().enumerate() {
            flags |= (*is_match as u8) << i;
        }
        bytes.push(flags);
        for (_, b) in group {
            bytes.extend_from_slice(b);
        }
    }
    if bytes.len() > 4096 {
        // Does not shrink: stored.
        expected.literal(&out.data);
        return (false, out.data);
    }
    expected.matches += out.matches;
    expected.overlap |= out.overlap;
    expected.literal(&out.data);
    (true, bytes)
}

pub fn lznt1(g: &mut Gen) -> Stream {
    let mut encoded = Vec::new();
    let mut out = Output::default();
    let chunks = g.usize(1, 3);
    for i in 0..chunks {
        let size = if i + 1 < chunks { 4096 } else { g.length(4096, 512).max(1) };
        let (compressed, bytes) = lznt1_chunk(g, size, &mut out);
        let header = ((compressed as u16) << 15) | (3 << 12) | (bytes.len() - 1) as u16;
        encoded.extend_from_slice(&header.to_le_bytes());
        encoded.extend_from_slice(&bytes);
        g.class_if(!compressed, "stored chunk");
    }
    g.class_if(chunks > 1, "several chunks");
    let mut terminated = false;
    if g.bool() {
        encoded.extend_from_slice(&[0, 0]);
        terminated = true;
        g.class("end of data marker");
    }
    Stream::of(encoded, out).terminated(terminated)
}

/// LZVN opcodes for the given number of output bytes (at least).
pub fn lzvn_block(g: &mut Gen, steps: usize) -> (Vec<u8>, Output) {
    let mut encoded = Vec::new();
    let mut out = Output::default();
    let mut previous: Option<usize> = None;
    if g.chance(1, 8) {
        let n = g.usize(1, 250);
        for i in 0..n {
            let block: Vec<u8> = (0..271).map(|j| (i * 5 + j * 3 + i / 7) as u8).collect();
            encoded.extend_from_slice(&[0xe0, 0xff]);
            encoded.extend_from_slice(&block);
            out.literal(&block);
        }
    }
    for _ in 0..steps {
        let kind = g.weighted(&[2, 2, 3, 3, 3, 3, 2, 2, 1]);
        match kind {
            0 => {
                let n = edge(g, 1, 15);
                let data = literals(g, n);
                encoded.push(0xe0 | n as u8);
                encoded.extend_from_slice(&data);
                out.literal(&data);
            }
            1 => {
                let n = edge(g, 16, 271);
                let data = literals(g, n);
                encoded.extend_from_slice(&[0xe0, (n - 16) as u8]);
                encoded.extend_from_slice(&data);
                out.literal(&data);
                g.class("large literal");
            }
            2..=5 => {
                let n = g.usize(0, 3);
                if out.len() + n == 0 {
                    continue;
                }
                let reach = out.len() + n;
                // Literals come before the match.
                let (opcode, after, distance, length) = match kind {
                    2 => {
                        let distance = edge(g, 1, reach.min(0x5ff));
                        let length = edge(g, 3, 10);
                        let m = length - 3;
                        if n == 3 && m > 3 {
                            // 0xd0 to 0xff are other opcodes or undefined.
                            continue;
                        }
                        if n == 1 && m > 5 {
                            // 0x70 to 0x7f are undefined.
                            continue;
                        }
                        if n == 2 && m > 3 {
                            // 0xa0 to 0xbf are the medium distance.
                            continue;
                        }
                        g.class("small distance");
                        (((n << 6) | (m << 3) | (distance >> 8)) as u8, vec![distance as u8], distance, length)
                    }
                    3 => {
                        let distance = edge(g, 1, reach.min(0x3fff));
                        let length = edge(g, 3, 34);
                        let m = length - 3;
                        g.class("medium distance");
                        (
                            0xa0 | ((n << 3) | (m >> 2)) as u8,
                            vec![((distance & 0x3f) << 2 | (m & 3)) as u8, (distance >> 6) as u8],
                            distance,
                            length,
                        )
                    }
                    4 => {
                        let distance = edge(g, 1, reach.min(0xffff));
                        let length = edge(g, 3, 10);
                        let m = length - 3;
                        if (n == 3 && m > 1) || (n == 1 && m > 5) || (n == 2 && m > 3) {
                            continue;
                        }
                        g.class("large distance");
                        (((n << 6) | (m << 3) | 7) as u8, vec![distance as u8, (distance >> 8) as u8], distance, length)
                    }
                    _ => {
                        let distance = match previous {
                            Some(d) => d,
                            None => continue,
                        };
                        let length = edge(g, 3, 10);
                        let m = length - 3;
                        // Without literals the same bits mean other things.
                        if n == 0 || (n == 3 && m > 1) || (n == 1 && m > 5) || (n == 2 && m > 3) {
                            continue;
                        }
                        g.class("previous distance with literals");
                        (((n << 6) | (m << 3) | 6) as u8, vec![], distance, length)
                    }
                };
                if (0x70..0x80).contains(&opcode) || (0xd0..0xe0).contains(&opcode) {
                    continue;
                }
                let data = literals(g, n);
                encoded.push(opcode);
                encoded.extend_from_slice(&after);
                encoded.extend_from_slice(&data);
                out.literal(&data);
                out.repeat(distance, length);
                previous = Some(distance);
            }
            6 | 7 => {
                if let Some(distance) = previous {
                    if kind == 6 {
                        let n = edge(g, 1, 15);
                        encoded.push(0xf0 | n as u8);
                        out.repeat(distance, n);
                        g.class("small match");
                    } else {
                        let n = edge(g, 16, 271);
                        encoded.extend_from_slice(&[0xf0, (n - 16) as u8]);
                        out.repeat(distance, n);
                        g.class("large match");
                    }
                }
            }
            _ => {
                encoded.push(*g.pick(&[0x0eu8, 0x16]));
                g.class("no operation");
            }
        }
    }
    encoded.extend_from_slice(&[0x06, 0, 0, 0, 0, 0, 0, 0]);
    (encoded, out)
}

pub fn lzvn(g: &mut Gen) -> Stream {
    let steps = g.usize(1, 30);
    let (encoded, out) = lzvn_block(g, steps);
    Stream::of(encoded, out).terminated(true)
}
