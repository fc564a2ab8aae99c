//! Bzip2 streams.

use crate::common::*;
use crate::Stream;
use pbt::*;

fn crc(data: &[u8]) -> u32 {
    let mut register = 0xffffffffu32;
    for b in data {
        register ^= (*b as u32) << 24;
        for _ in 0..8 {
            register = if register >> 31 == 1 { (register << 1) ^ 0x04c11db7 } else { register << 1 };
        }
    }
    !register
}

/// First run-length coding: 4 equal bytes are followed by a count of up to 251 more.
fn run_lengths(g: &mut Gen, data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < data.len() {
        let run = data[i..].iter().take_while(|b| **b == data[i]).count();
        if run < 4 {
            out.extend_from_slice(&data[i..i + run]);
            i += run;
        } else {
            // The format allows counts of up to 255.
            let most = if g.chance(1, 4) { 259 } else { 255 };
            let n = run.min(most);
            out.extend_from_slice(&[data[i]; 4]);
            out.push((n - 4) as u8);
            i += n;
            g.class("run of 4 or more");
        }
    }
    out
}

/// Burrows-Wheeler transform over the sorted rotations: (last column, row of the original).
fn transform(data: &[u8]) -> (Vec<u8>, usize) {
    let n = data.len();
    let mut rank: Vec<u32> = data.iter().map(|b| *b as u32).collect();
    let mut order: Vec<usize> = (0..n).collect();
    let mut k = 1;
    order.sort_by_key(|i| rank[*i]);
    loop {
        order.sort_by_key(|i| ((rank[*i] as u64) << 32) | rank[(*i + k) % n] as u64);
        let mut next = vec![0u32; n];
        for j in 1..n {
            let (a, b) = (order[j - 1], order[j]);
            let same = rank[a] == rank[b] && rank[(a + k) % n] == rank[(b + k) % n];
            next[b] = next[a] + !same as u32;
        }
        rank = next;
        k *= 2;
        if k >= n || rank[order[n - 1]] as usize == n - 1 {
            break;
        }
    }
    let last = order.iter().map(|i| data[(*i + n - 1) % n]).collect();
    (last, order.iter().position(|i| *i == 0).unwrap())
}

fn put_block(g: &mut Gen, bits: &mut BitsMsb, data: &[u8], coded: &[u8]) {
    bits.put(0x314159265359, 48);
    bits.put(crc(data) as u64, 32);
    bits.put(0, 1);
    let (last, origin) = transform(coded);
    bits.put(origin as u64, 24);
    let mut present = [false; 256];
    for b in coded {
        present[*b as usize] = true;
    }
    let mut map = 0u64;
    for i in 0..16 {
        map = map << 1 | present[16 * i..16 * i + 16].contains(&true) as u64;
    }
    bits.put(map, 16);
    for i in 0..16 {
        if present[16 * i..16 * i + 16].contains(&true) {
            for j in 0..16 {
                bits.put(present[16 * i + j] as u64, 1);
            }
        }
    }
    // Move to front, zero runs in bijective base 2.
    let mut stack: Vec<u8> = (0..=255u8).filter(|b| present[*b as usize]).collect();
    let end = stack.len() + 1;
    let mut symbols: Vec<usize> = Vec::new();
    let mut zeros = 0usize;
    for b in &last {
        let i = stack.iter().position(|s| s == b).unwrap();
        if i == 0 {
            zeros += 1;
            continue;
        }
        while zeros > 0 {
            symbols.push((zeros - 1) % 2);
            zeros = (zeros - 1) / 2;
        }
        symbols.push(i + 1);
        stack.remove(i);
        stack.insert(0, *b);
    }
    while zeros > 0 {
        symbols.push((zeros - 1) % 2);
        zeros = (zeros - 1) / 2;
    }
    symbols.push(end);
    let groups = (symbols.len() + 49) / 50;
    let trees = g.usize(2, 6);
    let mut rng = Rng(g.u64());
    let one_tree = g.chance(1, 6);
    let mut selectors: Vec<usize> = (0..groups).map(|_| if one_tree { 0 } else { (rng.next() % trees as u64) as usize }).collect();
    // More selectors than needed are allowed.
    if g.chance(1, 10) {
        selectors.push(g.usize(0, trees - 1));
        g.class("spare selector");
    }
    bits.put(trees as u64, 3);
    bits.put(selectors.len() as u64, 15);
    let mut order: Vec<usize> = (0..trees).collect();
    for s in &selectors {
        let i = order.iter().position(|t| t == s).unwrap();
        for _ in 0..i {
            bits.put(1, 1);
        }
        bits.put(0, 1);
        order.remove(i);
        order.insert(0, *s);
    }
    let mut codes = Vec::new();
    for _ in 0..trees {
        let max = *g.pick(&[17usize, 20, 20]);
        let sizes = complete_code(g, end + 1, max);
        let deepest = *sizes.iter().max().unwrap();
        g.class_if(deepest == 20, "20 bit codes");
        let mut current = g.usize(1, deepest as usize) as u8;
        bits.put(current as u64, 5);
        for s in &sizes {
            if g.chance(1, 200) && current < 20 {
                // A detour.
                bits.put(0b10, 2);
                bits.put(0b11, 2);
            }
            while current < *s {
                bits.put(0b10, 2);
                current += 1;
            }
            while current > *s {
                bits.put(0b11, 2);
                current -= 1;
            }
            bits.put(0, 1);
        }
        codes.push((canonical(&sizes), sizes));
    }
    for (i, s) in symbols.iter().enumerate() {
        let (code, size) = &codes[selectors[i / 50]];
        bits.put(code[*s] as u64, size[*s] as usize);
    }
    g.class_if(groups > 1, "several selector groups");
}

fn block_data(g: &mut Gen, large: bool) -> Vec<u8> {
    let mut data = Vec::new();
    if large {
        // More than level 1 holds.
        let n = g.usize(100_001, 130_000);
        let seed = g.u64();
        let mut rng = Rng(seed);
        let mut x = 0u8;
        while data.len() < n {
            if rng.next() % 3 == 0 {
                x = (rng.next() % 7) as u8 + b'a';
            }
            data.push(x);
        }
        return data;
    }
    for _ in 0..g.usize(1, 5) {
        if g.chance(1, 2) {
            let n = edge(g, 1, 900);
            let b = *g.pick(&[0u8, b'a', 0xff, 7]);
            data.extend(std::iter::repeat(b).take(n));
        } else {
            let n = g.length(400, 50).max(1);
            data.extend_from_slice(&g.blob(n));
        }
    }
    data
}

pub fn bzip2(g: &mut Gen) -> Stream {
    let blocks = g.weighted(&[1, 12, 4, 2]);
    let large = blocks == 1 && g.chance(1, 60);
    let level = if large { g.usize(2, 9) } else { g.usize(1, 9) };
    let mut bits = BitsMsb::new();
    for b in [b'B', b'Z', b'h', b'0' + level as u8] {
        bits.put(b as u64, 8);
    }
    let mut out = Output::default();
    let mut combined = 0u32;
    for _ in 0..blocks {
        let data = block_data(g, large);
        let coded = run_lengths(g, &data);
        put_block(g, &mut bits, &data, &coded);
        combined = combined.rotate_left(1) ^ crc(&data);
        out.literal(&data);
        g.class_if(coded.len() > 100_000, "block of over 100000 bytes");
    }
    bits.put(0x177245385090, 48);
    bits.put(combined as u64, 32);
    g.class_if(blocks > 1, "several blocks");
    g.class_if(blocks == 0, "no block");
    Stream::of(bits.into_bytes(), out).terminated(true)
}
