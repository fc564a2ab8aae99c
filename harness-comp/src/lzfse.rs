//! LZFSE streams: uncompressed, LZVN, and version 1 and 2 blocks with entropy coded values.

use crate::common::*;
use crate::lz::lzvn_block;
use crate::Stream;
use pbt::*;

/// Extra bits and base of the L, M and D symbols, built from the rule of the reference.
fn value_table(bits: &[u8]) -> Vec<(usize, usize)> {
    let mut base = 0;
    bits.iter()
        .map(|b| {
            let entry = (base, *b as usize);
            base += 1 << b;
            entry
        })
        .collect()
}

fn l_table() -> Vec<(usize, usize)> {
    value_table(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 3, 5, 8])
}

fn m_table() -> Vec<(usize, usize)> {
    value_table(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 5, 8, 11])
}

fn d_table() -> Vec<(usize, usize)> {
    let bits: Vec<u8> = (0..64).map(|i| (i / 4) as u8).collect();
    value_table(&bits)
}

fn symbol_of(table: &[(usize, usize)], value: usize) -> usize {
    table.iter().rposition(|(base, _)| *base <= value).unwrap()
}

/// Entropy coder state machine: symbol s has frequencies[s] states, in order of the symbols.
struct Fse {
    states: usize,
    first: Vec<usize>,
    frequencies: Vec<usize>,
}

impl Fse {
    fn new(frequencies: Vec<usize>, states: usize) -> Fse {
        let mut first = Vec::new();
        let mut sum = 0;
        for f in &frequencies {
            first.push(sum);
            sum += f;
        }
        assert!(sum <= states);
        Fse { states, first, frequencies }
    }

    /// The state that decodes to `symbol` and continues in `next`, with the bits read on the way.
    fn encode(&self, symbol: usize, next: usize) -> (usize, u64, usize) {
        let f = self.frequencies[symbol];
        for x in f..2 * f {
            // Reading k bits takes x to states x << k .. (x + 1) << k, within states .. 2 * states.
            let mut k = 0;
            while (x << k) < self.states {
                k += 1;
            }
            let low = (x << k) - self.states;
            if next >= low && next < low + (1 << k) {
                return (self.first[symbol] + x - f, (next - low) as u64, k);
            }
        }
        panic!("no transition");
    }
}

/// Bits that are read backwards: what is put last is read first.
#[derive(Default)]
struct Backward {
    bits: BitsLsb,
}

impl Backward {
    fn put(&mut self, value: u64, n: usize) {
        self.bits.put(value, n);
    }
    /// (bytes, number of unused bits)
    fn finish(mut self) -> (Vec<u8>, usize) {
        let unused = (8 - self.bits.bit_len() % 8) % 8;
        self.bits.align(false);
        (self.bits.out, unused)
    }
}

/// Frequencies that add up to `states`, with at least 1 for every used symbol.
fn frequencies(g: &mut Gen, used: &[bool], states: usize) -> Vec<usize> {
    let mut f: Vec<usize> = used.iter().map(|u| *u as usize).collect();
    let mut left = states - f.iter().sum::<usize>();
    if left == states && g.bool() {
        // Nothing to encode: no table.
        return f;
    }
    let mut rng = Rng(g.u64());
    let style = g.below_or(2);
    let chosen: Vec<usize> = (0..f.len()).filter(|i| used[*i]).collect();
    while left > 0 {
        let i = if chosen.is_empty() || (style == 2 && rng.next() % 4 == 0) {
            (rng.next() % f.len() as u64) as usize
        } else {
            chosen[(rng.next() % chosen.len() as u64) as usize]
        };
        let step = match style {
            0 => 1 + (rng.next() % left as u64) as usize,
            1 => 1,
            _ => 1 + (rng.next() % left.min(9) as u64) as usize,
        };
        f[i] += step;
        left -= step;
    }
    f
}

fn put_frequency(bits: &mut BitsLsb, f: usize) {
    match f {
        0 => bits.put(0b00, 2),
        1 => bits.put(0b10, 2),
        2 => bits.put(0b001, 3),
        3 => bits.put(0b101, 3),
        4..=7 => bits.put(0b00011 | ((f as u64 - 4) << 3), 5),
        8..=23 => bits.put(0b0111 | ((f as u64 - 8) << 4), 8),
        _ => bits.put(0b1111 | ((f as u64 - 24) << 4), 14),
    }
}

struct Triple {
    literals: Vec<u8>,
    length: usize,
    distance: usize,
    /// The distance is that of the triple before.
    reuse: bool,
}

fn compressed_block(g: &mut Gen, version: u8, out: &mut Output) -> Vec<u8> {
    let count = g.usize(1, 40);
    let mut triples: Vec<Triple> = Vec::new();
    let start = out.len();
    let mut active = 0;
    for _ in 0..count {
        let n = match g.below_or(4) {
            0 => 0,
            1 => edge(g, 0, 15),
            _ => edge(g, 0, 315),
        };
        let data = literals(g, n);
        out.literal(&data);
        let mut length = match g.below_or(5) {
            0 => 0,
            1 | 2 => edge(g, 0, 15),
            3 => edge(g, 16, 311),
            _ => edge(g, 0, 2359),
        };
        if out.len() == 0 {
            length = 0;
        }
        let mut reuse = false;
        let mut distance = 0;
        if length > 0 {
            if active > 0 && active <= out.len() && g.chance(1, 3) {
                reuse = true;
                distance = active;
                g.class("distance reused");
            } else {
                distance = edge(g, 1, out.len().min(262139));
                g.class_if(distance > 65535, "distance over 65535");
                g.class_if(distance > out.len() - start, "distance into an earlier block");
                active = distance;
            }
            out.repeat(distance, length);
        } else if out.len() > 0 && g.chance(1, 4) {
            // A distance without a match is one that a later triple may reuse.
            distance = edge(g, 1, out.len().min(262139));
            active = distance;
            g.class("distance without a match");
        }
        triples.push(Triple { literals: data, length, distance, reuse });
    }
    let (lt, mt, dt) = (l_table(), m_table(), d_table());
    let mut literals_all: Vec<u8> = triples.iter().flat_map(|t| t.literals.iter().copied()).collect();
    let pad = g.u8();
    while literals_all.len() % 4 != 0 {
        literals_all.push(pad);
    }
    let symbols: Vec<(usize, usize, usize)> = triples
        .iter()
        .map(|t| {
            let d = if t.reuse { 0 } else { t.distance };
            (symbol_of(&lt, t.literals.len()), symbol_of(&mt, t.length), symbol_of(&dt, d))
        })
        .collect();
    let mut used = (vec![false; 20], vec![false; 20], vec![false; 64], vec![false; 256]);
    for (l, m, d) in &symbols {
        used.0[*l] = true;
        used.1[*m] = true;
        used.2[*d] = true;
    }
    for b in &literals_all {
        used.3[*b as usize] = true;
    }
    let lf = Fse::new(frequencies(g, &used.0, 64), 64);
    let mf = Fse::new(frequencies(g, &used.1, 64), 64);
    let df = Fse::new(frequencies(g, &used.2, 256), 256);
    let vf = Fse::new(frequencies(g, &used.3, 1024), 1024);

    let mut states = [0usize; 4];
    for s in states.iter_mut() {
        *s = g.usize(0, 1023);
    }
    let mut bits = Backward::default();
    for (i, b) in literals_all.iter().enumerate().rev() {
        let (state, value, k) = vf.encode(*b as usize, states[i % 4]);
        bits.put(value, k);
        states[i % 4] = state;
    }
    let (literal_bytes, literal_unused) = bits.finish();

    let (mut ls, mut ms, mut ds) = (g.usize(0, 63), g.usize(0, 63), g.usize(0, 255));
    let mut bits = Backward::default();
    for (t, (l, m, d)) in triples.iter().zip(&symbols).rev() {
        let distance = if t.reuse { 0 } else { t.distance };
        let (state, value, k) = df.encode(*d, ds);
        bits.put((distance - dt[*d].0) as u64, dt[*d].1);
        bits.put(value, k);
        ds = state;
        let (state, value, k) = mf.encode(*m, ms);
        bits.put((t.length - mt[*m].0) as u64, mt[*m].1);
        bits.put(value, k);
        ms = state;
        let (state, value, k) = lf.encode(*l, ls);
        bits.put((t.literals.len() - lt[*l].0) as u64, lt[*l].1);
        bits.put(value, k);
        ls = state;
    }
    let (lmd_bytes, lmd_unused) = bits.finish();

    let size = (out.len() - start) as u32;
    let all: Vec<usize> = [&lf, &mf, &df, &vf].iter().flat_map(|f| f.frequencies.iter().copied()).collect();
    let mut block = Vec::new();
    if version == 1 {
        block.extend_from_slice(b"bvx1");
        block.extend_from_slice(&size.to_le_bytes());
        block.extend_from_slice(&((literal_bytes.len() + lmd_bytes.len()) as u32).to_le_bytes());
        block.extend_from_slice(&(literals_all.len() as u32).to_le_bytes());
        block.extend_from_slice(&(triples.len() as u32).to_le_bytes());
        block.extend_from_slice(&(literal_bytes.len() as u32).to_le_bytes());
        block.extend_from_slice(&(lmd_bytes.len() as u32).to_le_bytes());
        block.extend_from_slice(&(-(literal_unused as i32)).to_le_bytes());
        for s in states {
            block.extend_from_slice(&(s as u16).to_le_bytes());
        }
        block.extend_from_slice(&(-(lmd_unused as i32)).to_le_bytes());
        for s in [ls, ms, ds] {
            block.extend_from_slice(&(s as u16).to_le_bytes());
        }
        for f in all {
            block.extend_from_slice(&(f as u16).to_le_bytes());
        }
        g.class("version 1 block");
    } else {
        let mut table = BitsLsb::default();
        for f in all {
            put_frequency(&mut table, f);
        }
        table.align(false);
        let mut p1 = literals_all.len() as u64;
        p1 |= (literal_bytes.len() as u64) << 20;
        p1 |= (triples.len() as u64) << 40;
        p1 |= (7 - literal_unused as u64) << 60;
        let mut p2 = 0u64;
        for (i, s) in states.iter().enumerate() {
            p2 |= (*s as u64) << (10 * i);
        }
        p2 |= (lmd_bytes.len() as u64) << 40;
        p2 |= (7 - lmd_unused as u64) << 60;
        let p3 = (32 + table.out.len()) as u64 | (ls as u64) << 32 | (ms as u64) << 42 | (ds as u64) << 52;
        block.extend_from_slice(b"bvx2");
        block.extend_from_slice(&size.to_le_bytes());
        for p in [p1, p2, p3] {
            block.extend_from_slice(&p.to_le_bytes());
        }
        block.extend_from_slice(&table.out);
        g.class("version 2 block");
    }
    block.extend_from_slice(&literal_bytes);
    block.extend_from_slice(&lmd_bytes);
    block
}

pub fn lzfse(g: &mut Gen) -> Stream {
    let mut encoded = Vec::new();
    let mut out = Output::default();
    let blocks = g.usize(1, 4);
    for _ in 0..blocks {
        match g.weighted(&[2, 2, 2, 6]) {
            0 => {
                let n = if g.chance(1, 10) { g.usize(60000, 280000) } else { g.length(300, 16) };
                let data = g.blob(n);
                encoded.extend_from_slice(b"bvx-");
                encoded.extend_from_slice(&(n as u32).to_le_bytes());
                encoded.extend_from_slice(&data);
                out.literal(&data);
                g.class("uncompressed block");
            }
            1 => {
                let steps = g.usize(1, 12);
                let (data, o) = lzvn_block(g, steps);
                encoded.extend_from_slice(b"bvxn");
                encoded.extend_from_slice(&(o.len() as u32).to_le_bytes());
                encoded.extend_from_slice(&(data.len() as u32).to_le_bytes());
                encoded.extend_from_slice(&data);
                out.overlap |= o.overlap;
                out.matches += o.matches;
                out.literal(&o.data);
                g.class("LZVN block");
            }
            2 => {
                let b = compressed_block(g, 1, &mut out);
                encoded.extend_from_slice(&b);
            }
            _ => {
                let b = compressed_block(g, 2, &mut out);
                encoded.extend_from_slice(&b);
            }
        }
    }
    encoded.extend_from_slice(b"bvx$");
    g.class_if(blocks > 1, "several blocks");
    Stream::of(encoded, out).terminated(true)
}
