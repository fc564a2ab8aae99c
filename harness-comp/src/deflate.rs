//! DEFLATE (RFC 1951) and ZLIB (RFC 1950) streams.

use crate::common::*;
use crate::Stream;
use pbt::*;

#[derive(Clone)]
enum Token {
    Literal(u8),
    Match { length: usize, distance: usize },
}

/// (symbol, extra bits, value of the extra bits), from the rules of RFC 1951 3.2.5.
fn length_symbol(length: usize) -> (usize, usize, usize) {
    if length == 258 {
        return (285, 0, 0);
    }
    let (mut base, mut symbol) = (3, 257);
    loop {
        let extra = if symbol < 265 { 0 } else { (symbol - 261) / 4 };
        if length < base + (1 << extra) {
            return (symbol, extra, length - base);
        }
        base += 1 << extra;
        symbol += 1;
    }
}

fn distance_symbol(distance: usize) -> (usize, usize, usize) {
    let (mut base, mut symbol) = (1, 0);
    loop {
        let extra = if symbol < 4 { 0 } else { symbol / 2 - 1 };
        if distance < base + (1 << extra) {
            return (symbol, extra, distance - base);
        }
        base += 1 << extra;
        symbol += 1;
    }
}

fn tokens(g: &mut Gen, out: &mut Output) -> Vec<Token> {
    let n = g.usize(0, 30);
    let mut result = Vec::new();
    for _ in 0..n {
        if out.len() > 0 && g.chance(1, 2) {
            let length = edge(g, 3, 258);
            let distance = edge(g, 1, out.len().min(32768));
            out.repeat(distance, length);
            result.push(Token::Match { length, distance });
        } else {
            let n = edge(g, 1, 30);
            for b in literals(g, n) {
                out.literal(&[b]);
                result.push(Token::Literal(b));
            }
        }
    }
    result
}

fn put_tokens(bits: &mut BitsLsb, tokens: &[Token], literal_sizes: &[u8], distance_sizes: &[u8]) {
    let literal_codes = canonical(literal_sizes);
    let distance_codes = canonical(distance_sizes);
    for t in tokens {
        match t {
            Token::Literal(b) => bits.code(literal_codes[*b as usize], literal_sizes[*b as usize] as usize),
            Token::Match { length, distance } => {
                let (s, n, v) = length_symbol(*length);
                bits.code(literal_codes[s], literal_sizes[s] as usize);
                bits.put(v as u64, n);
                let (s, n, v) = distance_symbol(*distance);
                bits.code(distance_codes[s], distance_sizes[s] as usize);
                bits.put(v as u64, n);
            }
        }
    }
    bits.code(literal_codes[256], literal_sizes[256] as usize);
}

fn dynamic_header(g: &mut Gen, bits: &mut BitsLsb, literal_sizes: &[u8], distance_sizes: &[u8], crowded: bool) {
    let mut sizes: Vec<u8> = literal_sizes.to_vec();
    sizes.extend_from_slice(distance_sizes);
    // Run-length coding; runs may cross from the literals into the distances.
    let mut coded: Vec<(usize, usize, usize)> = Vec::new();
    let mut i = 0;
    while i < sizes.len() {
        let run = sizes[i..].iter().take_while(|s| **s == sizes[i]).count();
        if sizes[i] == 0 && run >= 3 && !g.chance(1, 12) {
            if run >= 11 {
                let n = if g.chance(3, 4) { run.min(138) } else { g.usize(11, run.min(138)) };
                coded.push((18, 7, n - 11));
                i += n;
            } else {
                coded.push((17, 3, run - 3));
                i += run;
            }
        } else if i > 0 && sizes[i - 1] == sizes[i] && run >= 3 && g.chance(5, 6) {
            let n = run.min(6);
            coded.push((16, 2, n - 3));
            i += n;
            g.class("repeated code size");
        } else {
            coded.push((sizes[i] as usize, 0, 0));
            i += 1;
        }
    }
    let mut used = [false; 19];
    for (s, _, _) in &coded {
        used[*s] = true;
    }
    let mut code_sizes = alphabet_code(g, &used, 7, 2);
    if crowded {
        crowd(g, &mut code_sizes, 7);
    }
    let codes = canonical(&code_sizes);
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let needed = (0..19).rev().find(|i| code_sizes[ORDER[*i]] != 0).unwrap() + 1;
    let count = if g.bool() { needed.max(4) } else { g.usize(needed.max(4), 19) };
    bits.put((literal_sizes.len() - 257) as u64, 5);
    bits.put((distance_sizes.len() - 1) as u64, 5);
    bits.put((count - 4) as u64, 4);
    for i in 0..count {
        bits.put(code_sizes[ORDER[i]] as u64, 3);
    }
    for (s, n, v) in coded {
        bits.code(codes[s], code_sizes[s] as usize);
        bits.put(v as u64, n);
    }
}

fn trim(g: &mut Gen, sizes: &mut Vec<u8>, minimum: usize, maximum: usize) {
    sizes.truncate(maximum);
    if g.chance(3, 4) {
        while sizes.len() > minimum && *sizes.last().unwrap() == 0 {
            sizes.pop();
        }
    }
}

pub fn raw(g: &mut Gen) -> (Vec<u8>, Output) {
    let mut bits = BitsLsb::default();
    let mut out = Output::default();
    let blocks = g.usize(1, 5);
    for i in 0..blocks {
        let last = i + 1 == blocks;
        bits.put(last as u64, 1);
        match g.weighted(&[3, 3, 6]) {
            0 => {
                let n = match g.below_or(8) {
                    0 => 0,
                    1 => *g.pick(&[65535usize, 65534, 32768, 40000]),
                    _ => g.length(300, 16),
                };
                let data = g.blob(n);
                bits.put(0, 2);
                let ones = g.bool();
                bits.align(ones);
                bits.put(n as u64, 16);
                bits.put(!n as u64 & 0xffff, 16);
                bits.bytes(&data);
                out.literal(&data);
                g.class("stored block");
                g.class_if(n == 0, "empty stored block");
            }
            1 => {
                let t = tokens(g, &mut out);
                let mut sizes = vec![8u8; 288];
                sizes[144..256].fill(9);
                sizes[256..280].fill(7);
                bits.put(1, 2);
                put_tokens(&mut bits, &t, &sizes, &[5; 32]);
                g.class("fixed codes");
            }
            _ => {
                let t = tokens(g, &mut out);
                let (mut l, mut d) = (vec![false; 286], vec![false; 30]);
                l[256] = true;
                for t in &t {
                    match t {
                        Token::Literal(b) => l[*b as usize] = true,
                        Token::Match { length, distance } => {
                            l[length_symbol(*length).0] = true;
                            d[distance_symbol(*distance).0] = true;
                        }
                    }
                }
                let mut ls = alphabet_code(g, &l, 15, 2);
                let no_distances = !d.contains(&true);
                // RFC 1951 3.2.7: one distance code uses one bit; one of zero bits means none.
                let mut ds = if no_distances && g.bool() {
                    g.class("no distance codes");
                    vec![0u8; 30]
                } else {
                    alphabet_code(g, &d, 15, 1)
                };
                g.class_if(ds.iter().filter(|s| **s > 0).count() == 1, "one distance code");
                g.class_if(ls.iter().any(|s| *s == 15), "15 bit codes");
                trim(g, &mut ls, 257, 286);
                trim(g, &mut ds, 1, 30);
                bits.put(2, 2);
                dynamic_header(g, &mut bits, &ls, &ds, false);
                put_tokens(&mut bits, &t, &ls, &ds);
                g.class("dynamic codes");
            }
        }
    }
    g.class_if(blocks > 1, "several blocks");
    let ones = g.bool();
    bits.align(ones);
    (bits.out, out)
}

/// Changes the sizes of a complete code such that there are more codes than there is space for.
fn crowd(g: &mut Gen, sizes: &mut [u8], largest: u8) {
    let long: Vec<usize> = (0..sizes.len()).filter(|i| sizes[*i] > 1).collect();
    let unused: Vec<usize> = (0..sizes.len()).filter(|i| sizes[*i] == 0).collect();
    if !unused.is_empty() && (long.is_empty() || g.bool()) {
        // One code too many, of a size that may be the largest one.
        let i = *g.pick(&unused);
        sizes[i] = if g.bool() { largest } else { g.range(1, largest as u64) as u8 };
    } else if !long.is_empty() {
        let i = *g.pick(&long);
        sizes[i] = if g.bool() { sizes[i] - 1 } else { g.range(1, sizes[i] as u64 - 1) as u8 };
    }
}

/// A stream whose last block has a code of which the sizes are over-subscribed.
pub fn crowded(g: &mut Gen) -> Vec<u8> {
    let mut bits = BitsLsb::default();
    let mut out = Output::default();
    if g.bool() {
        // A block before it, that is stored.
        let n = g.usize(0, 40);
        let data = g.bytes(n);
        bits.put(0, 3);
        bits.align(false);
        bits.put(n as u64, 16);
        bits.put(!n as u64 & 0xffff, 16);
        bits.bytes(&data);
        out.literal(&data);
    }
    let t = tokens(g, &mut out);
    let (mut l, mut d) = (vec![false; 286], vec![false; 30]);
    l[256] = true;
    for t in &t {
        match t {
            Token::Literal(b) => l[*b as usize] = true,
            Token::Match { length, distance } => {
                l[length_symbol(*length).0] = true;
                d[distance_symbol(*distance).0] = true;
            }
        }
    }
    let mut ls = alphabet_code(g, &l, 15, 2);
    let mut ds = alphabet_code(g, &d, 15, 2);
    let which = g.below_or(2);
    match which {
        0 => {
            crowd(g, &mut ls, 15);
            g.class("literal codes");
        }
        1 => {
            crowd(g, &mut ds, 15);
            g.class("distance codes");
        }
        _ => g.class("code size codes"),
    }
    bits.put(5, 3);
    dynamic_header(g, &mut bits, &ls, &ds, which == 2);
    put_tokens(&mut bits, &t, &ls, &ds);
    bits.align(false);
    let mut data = bits.out;
    let n = g.usize(0, 60);
    let more = g.bytes(n);
    data.extend_from_slice(&more);
    data
}

pub fn deflate(g: &mut Gen) -> Stream {
    let (encoded, out) = raw(g);
    Stream::of(encoded, out).terminated(true)
}

pub fn adler(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u64, 0u64);
    for x in data {
        a = (a + *x as u64) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16 | a) as u32
}

pub fn zlib(g: &mut Gen) -> Stream {
    let (body, out) = raw(g);
    // The window has to cover the distances; 32 KiB always does.
    let cmf = 0x78u32;
    let level = g.range(0, 3) as u32;
    let mut flags = level << 6;
    flags |= (31 - (cmf * 256 + flags) % 31) % 31;
    let mut encoded = vec![cmf as u8, flags as u8];
    encoded.extend_from_slice(&body);
    encoded.extend_from_slice(&adler(&out.data).to_be_bytes());
    Stream::of(encoded, out).terminated(true)
}
