//! Compression of given data, simple but with all that the formats need.

use crate::common::*;
use pbt::*;

fn run(data: &[u8], at: usize) -> usize {
    data[at..].iter().take(300).take_while(|b| **b == data[at]).count()
}

pub fn adc(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let most = g.usize(1, 128);
    let mut out = Vec::new();
    let mut i = 0;
    while i < data.len() {
        // Repeat what was before.
        let previous = if i > 0 { data[i..].iter().take(67).take_while(|b| **b == data[i - 1]).count() } else { 0 };
        if previous >= 4 {
            let n = previous.min(67);
            out.extend_from_slice(&[0x40 | (n - 4) as u8, 0, 0]);
            i += n;
            continue;
        }
        let mut n = 1;
        while n < most && i + n < data.len() && run(data, i + n) < 6 {
            n += 1;
        }
        out.push(0x80 | (n - 1) as u8);
        out.extend_from_slice(&data[i..i + n]);
        i += n;
    }
    out
}

/// Deflate: stored blocks, or fixed codes with runs.
fn deflate(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let mut bits: Vec<bool> = Vec::new();
    let put = |bits: &mut Vec<bool>, value: u64, n: usize| (0..n).for_each(|i| bits.push(value >> i & 1 == 1));
    let code = |bits: &mut Vec<bool>, value: u64, n: usize| (0..n).rev().for_each(|i| bits.push(value >> i & 1 == 1));
    let mut i = 0;
    loop {
        let n = (data.len() - i).min(*g.pick(&[65535usize, 65535, 4000, 700]));
        let part = &data[i..i + n];
        i += n;
        put(&mut bits, (i == data.len()) as u64, 1);
        if g.chance(1, 3) {
            put(&mut bits, 0, 2);
            while bits.len() % 8 != 0 {
                bits.push(false);
            }
            put(&mut bits, n as u64, 16);
            put(&mut bits, !(n as u64), 16);
            part.iter().for_each(|b| put(&mut bits, *b as u64, 8));
        } else {
            put(&mut bits, 1, 2);
            let mut j = 0;
            while j < n {
                let b = part[j] as u64;
                if j > 0 && part[j - 1] == part[j] && run(part, j) >= 258 {
                    // Length 258 at distance 1.
                    code(&mut bits, 0b11000101, 8);
                    code(&mut bits, 0, 5);
                    j += 258;
                    continue;
                }
                if b < 144 {
                    code(&mut bits, 0x30 + b, 8);
                } else {
                    code(&mut bits, 0x190 + b - 144, 9);
                }
                j += 1;
            }
            code(&mut bits, 0, 7);
        }
        if i == data.len() {
            break;
        }
    }
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u8) << i)).collect()
}

pub fn zlib(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let mut out = vec![0x78, *g.pick(&[0x9c, 0xda, 0x01, 0x5e])];
    out.extend(deflate(g, data));
    out.extend_from_slice(&adler32(data).to_be_bytes());
    out
}

pub fn lzfse(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let n = (data.len() - i).min(g.usize(500, 100_000));
        let part = &data[i..i + n];
        i += n;
        if g.bool() {
            out.extend_from_slice(b"bvx-");
            out.extend_from_slice(&(n as u32).to_le_bytes());
            out.extend_from_slice(part);
            continue;
        }
        // LZVN with literals, and matches at the previous distance, which the first match sets.
        let mut v = Vec::new();
        let mut j = 0;
        let mut set = false;
        while j < n {
            if j > 0 && part[j] == part[j - 1] && run(part, j) >= 6 {
                if !set {
                    // Length 3 at distance 1.
                    v.extend_from_slice(&[0x00, 0x01]);
                    j += 3;
                    set = true;
                } else {
                    let m = run(part, j).min(271);
                    if m < 16 {
                        v.push(0xf0 | m as u8);
                    } else {
                        v.extend_from_slice(&[0xf0, (m - 16) as u8]);
                    }
                    j += m;
                }
                continue;
            }
            let mut m = 1;
            while m < 271 && j + m < n && run(part, j + m) < 8 {
                m += 1;
            }
            if m < 16 {
                v.push(0xe0 | m as u8);
            } else {
                v.extend_from_slice(&[0xe0, (m - 16) as u8]);
            }
            v.extend_from_slice(&part[j..j + m]);
            j += m;
        }
        v.extend_from_slice(&[6, 0, 0, 0, 0, 0, 0, 0]);
        out.extend_from_slice(b"bvxn");
        out.extend_from_slice(&(n as u32).to_le_bytes());
        out.extend_from_slice(&(v.len() as u32).to_le_bytes());
        out.extend(v);
    }
    out.extend_from_slice(b"bvx$");
    out
}

fn bzip2_crc(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in data {
        c ^= (*b as u32) << 24;
        for _ in 0..8 {
            c = if c >> 31 == 1 { c << 1 ^ 0x04c11db7 } else { c << 1 };
        }
    }
    !c
}

pub fn bzip2(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let level = g.usize(1, 9);
    let mut bits: Vec<bool> = Vec::new();
    let put = |bits: &mut Vec<bool>, value: u64, n: usize| (0..n).rev().for_each(|i| bits.push(value >> i & 1 == 1));
    put(&mut bits, u64::from_be_bytes([0, 0, 0, 0, b'B', b'Z', b'h', b'0' + level as u8]), 32);
    let mut all = 0u32;
    let mut i = 0;
    while i < data.len() {
        let n = (data.len() - i).min(g.usize(1000, 70000));
        let part = &data[i..i + n];
        i += n;
        all = all.rotate_left(1) ^ bzip2_crc(part);
        bzip2_block(&mut bits, part);
    }
    put(&mut bits, 0x177245385090, 48);
    put(&mut bits, all as u64, 32);
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |x, (i, b)| x | (*b as u8) << (7 - i))).collect()
}

fn bzip2_block(bits: &mut Vec<bool>, data: &[u8]) {
    let put = |bits: &mut Vec<bool>, value: u64, n: usize| (0..n).rev().for_each(|i| bits.push(value >> i & 1 == 1));
    let mut coded = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let n = run(data, i).min(255);
        coded.extend(std::iter::repeat(data[i]).take(n.min(4)));
        if n >= 4 {
            coded.push((n - 4) as u8);
        }
        i += n;
    }
    // Sorted rotations, by doubling.
    let n = coded.len();
    let mut rank: Vec<u32> = coded.iter().map(|b| *b as u32).collect();
    let mut order: Vec<usize> = (0..n).collect();
    let mut k = 1;
    loop {
        order.sort_by_key(|i| (rank[*i] as u64) << 32 | rank[(*i + k) % n] as u64);
        let mut next = vec![0u32; n];
        for j in 1..n {
            let (a, b) = (order[j - 1], order[j]);
            next[b] = next[a] + (rank[a] != rank[b] || rank[(a + k) % n] != rank[(b + k) % n]) as u32;
        }
        rank = next;
        k *= 2;
        if k >= n || rank[order[n - 1]] as usize == n - 1 {
            break;
        }
    }
    let last: Vec<u8> = order.iter().map(|i| coded[(*i + n - 1) % n]).collect();
    let origin = order.iter().position(|i| *i == 0).unwrap();
    put(bits, 0x314159265359, 48);
    put(bits, bzip2_crc(data) as u64, 32);
    put(bits, 0, 1);
    put(bits, origin as u64, 24);
    let mut present = [false; 256];
    coded.iter().for_each(|b| present[*b as usize] = true);
    for r in 0..16 {
        bits.push(present[16 * r..16 * r + 16].contains(&true));
    }
    for r in 0..16 {
        if present[16 * r..16 * r + 16].contains(&true) {
            bits.extend_from_slice(&present[16 * r..16 * r + 16]);
        }
    }
    let mut stack: Vec<u8> = (0..=255u8).filter(|b| present[*b as usize]).collect();
    let count = stack.len() + 2;
    let mut symbols = Vec::new();
    let mut zeros = 0usize;
    let flush = |symbols: &mut Vec<usize>, zeros: &mut usize| {
        while *zeros > 0 {
            symbols.push((*zeros - 1) % 2);
            *zeros = (*zeros - 1) / 2;
        }
    };
    for b in &last {
        let i = stack.iter().position(|s| s == b).unwrap();
        if i == 0 {
            zeros += 1;
            continue;
        }
        flush(&mut symbols, &mut zeros);
        symbols.push(i + 1);
        stack.remove(i);
        stack.insert(0, *b);
    }
    flush(&mut symbols, &mut zeros);
    symbols.push(count - 1);
    // Two equal tables, codes of two sizes.
    let size = (usize::BITS - (count - 1).leading_zeros()) as usize;
    let short = (1 << size) - count;
    let groups = symbols.len().div_ceil(50);
    put(bits, 2, 3);
    put(bits, groups as u64, 15);
    put(bits, 0, groups);
    for _ in 0..2 {
        let mut now = size - (short > 0) as usize;
        put(bits, now as u64, 5);
        for s in 0..count {
            if s == short && now < size {
                put(bits, 0b10, 2);
                now = size;
            }
            put(bits, 0, 1);
        }
    }
    for s in symbols {
        if s < short {
            put(bits, s as u64, size - 1);
        } else {
            put(bits, (s + short) as u64, size);
        }
    }
}

pub fn base64(data: &[u8], width: usize, indent: &str) -> String {
    const DIGITS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in data.chunks(width) {
        out.push_str(indent);
        for t in c.chunks(3) {
            let v = (t[0] as u32) << 16 | (*t.get(1).unwrap_or(&0) as u32) << 8 | *t.get(2).unwrap_or(&0) as u32;
            for i in 0..4 {
                out.push(if i <= t.len() { DIGITS[(v >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
            }
        }
    }
    out.push_str(indent);
    out
}
