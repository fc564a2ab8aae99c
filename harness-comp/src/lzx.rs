//! LZX streams as in Windows Imaging (WIM) chunks of up to 32768 bytes.

use crate::common::*;
use crate::Stream;
use pbt::*;

enum Token {
    Literal(u8),
    /// (position slot, value of the extra bits, length)
    Match(usize, usize, usize),
}

/// (first formatted offset, extra bits) per position slot; [MS-PATCH] 2.6.1.
fn slots() -> Vec<(usize, usize)> {
    let mut base = 0;
    (0..30)
        .map(|slot: usize| {
            let extra = if slot < 4 { 0 } else { (slot / 2 - 1).min(17) };
            let entry = (base, extra);
            base += 1 << extra;
            entry
        })
        .collect()
}

fn put_code_sizes(g: &mut Gen, bits: &mut BitsMsb, before: &[u8], sizes: &[u8]) {
    let delta = |i: usize, size: u8| (before[i] as i32 - size as i32).rem_euclid(17) as usize;
    // (symbol, extra bits, value, symbol after)
    let mut coded: Vec<(usize, usize, usize, Option<usize>)> = Vec::new();
    let mut i = 0;
    while i < sizes.len() {
        let run = sizes[i..].iter().take_while(|s| **s == sizes[i]).count();
        if sizes[i] == 0 && run >= 20 && !g.chance(1, 10) {
            let n = if g.chance(3, 4) { run.min(51) } else { g.usize(20, run.min(51)) };
            coded.push((18, 5, n - 20, None));
            i += n;
        } else if sizes[i] == 0 && run >= 4 && !g.chance(1, 10) {
            let n = if g.chance(3, 4) { run.min(19) } else { g.usize(4, run.min(19)) };
            coded.push((17, 4, n - 4, None));
            i += n;
        } else if run >= 4 && g.chance(5, 6) {
            let n = run.min(5);
            coded.push((19, 1, n - 4, Some(delta(i, sizes[i]))));
            i += n;
            g.class("repeated code size");
        } else {
            coded.push((delta(i, sizes[i]), 0, 0, None));
            i += 1;
        }
    }
    let mut used = [false; 20];
    for (s, _, _, after) in &coded {
        used[*s] = true;
        if let Some(a) = after {
            used[*a] = true;
        }
    }
    let pre = alphabet_code(g, &used, 15, 2);
    let codes = canonical(&pre);
    for s in &pre {
        bits.put(*s as u64, 4);
    }
    for (s, n, v, after) in coded {
        bits.put(codes[s] as u64, pre[s] as usize);
        bits.put(v as u64, n);
        if let Some(a) = after {
            bits.put(codes[a] as u64, pre[a] as usize);
        }
    }
}

/// Undoes the translation of x86 calls; the last 10 bytes are left alone.
fn calls(data: &[u8]) -> Vec<u8> {
    let mut out = data.to_vec();
    if data.len() <= 10 {
        return out;
    }
    let mut i = 0;
    while i < data.len() - 10 {
        if out[i] != 0xe8 {
            i += 1;
            continue;
        }
        let absolute = i32::from_le_bytes(out[i + 1..i + 5].try_into().unwrap()) as i64;
        let position = i as i64;
        if absolute >= -position && absolute < 12_000_000 {
            let relative = if absolute >= 0 { absolute - position } else { absolute + 12_000_000 };
            out[i + 1..i + 5].copy_from_slice(&(relative as i32).to_le_bytes());
        }
        i += 5;
    }
    out
}

pub fn lzx(g: &mut Gen) -> Stream {
    let slots = slots();
    let mut bits = BitsMsb::new();
    let mut out = Output::default();
    let mut recent = [1usize; 3];
    let (mut main, mut lengths) = (vec![0u8; 496], vec![0u8; 249]);
    let blocks = g.usize(1, 4);
    let full = g.chance(1, 6);
    for block in 0..blocks {
        if out.len() >= 32768 {
            break;
        }
        let last = block + 1 == blocks;
        let start = out.len();
        let room = 32768 - start;
        let kind = g.weighted(&[4, 4, 3]) + 1;
        if kind == 3 {
            let n = if full && last {
                room
            } else {
                g.length(room.min(2000), 16).max(if out.len() == 0 && last { 10 } else { 1 })
            };
            let n = n.min(room);
            bits.put(3, 3);
            if n == 32768 {
                bits.put(1, 1);
                g.class("block of the default size");
            } else {
                bits.put(0, 1);
                bits.put(n as u64, 16);
            }
            // 1 to 16 bits of padding.
            let padding = 16 - bits.bit_len() % 16;
            g.class_if(padding == 16, "16 bits of padding");
            bits.put(0, padding);
            for r in recent.iter_mut() {
                if g.chance(1, 2) {
                    *r = edge(g, 1, (out.len() + n).min(32767));
                }
                for b in (*r as u32).to_le_bytes() {
                    bits.put_byte(b);
                }
            }
            let data = g.blob(n);
            for b in &data {
                bits.put_byte(*b);
            }
            if n % 2 == 1 {
                bits.put_byte(0);
                g.class_if(!last, "block after odd uncompressed block");
            }
            out.literal(&data);
            g.class("uncompressed block");
            continue;
        }
        let goal = if full && last { room } else { g.length(room.min(3000), 64).max(12).min(room) };
        let mut tokens = Vec::new();
        let mut aligned_used = [false; 8];
        while out.len() - start < goal {
            let left = goal - (out.len() - start);
            if out.len() > 0 && left >= 2 && (g.chance(1, 2) || left > 3000) {
                let longest = left.min(257);
                let length = if left > 3000 || g.chance(1, 8) { longest } else { edge(g, 2, longest) };
                let choice = g.below_or(3) as usize;
                let (slot, value, distance) = if choice < 3 && g.chance(1, 2) {
                    let d = recent[choice];
                    if d > out.len() {
                        out.literal(&[0x41]);
                        tokens.push(Token::Literal(0x41));
                        continue;
                    }
                    recent.swap(0, choice);
                    g.class("recent distance");
                    (choice, 0, d)
                } else {
                    let d = edge(g, 1, out.len().min(32765));
                    let formatted = d + 2;
                    let slot = slots.iter().rposition(|(base, _)| *base <= formatted).unwrap();
                    recent = [d, recent[0], recent[1]];
                    let value = formatted - slots[slot].0;
                    if slots[slot].1 >= 3 {
                        aligned_used[value & 7] = true;
                    }
                    g.class_if(slot >= 28, "largest position slots");
                    (slot, value, d)
                };
                out.repeat(distance, length);
                tokens.push(Token::Match(slot, value, length));
            } else {
                let n = edge(g, 1, left.min(30));
                let mut data = literals(g, n);
                if n >= 5 && g.chance(1, 3) {
                    // A call with an address near a limit of the translation.
                    let position = out.len() as i64;
                    let limit = *g.pick(&[0i64, -position, 12_000_000, position, 1000]);
                    let address = limit + g.usize(0, 4) as i64 - 2;
                    data[0] = 0xe8;
                    data[1..5].copy_from_slice(&(address as i32).to_le_bytes());
                    g.class("call instruction");
                }
                for b in data {
                    out.literal(&[b]);
                    tokens.push(Token::Literal(b));
                }
            }
        }
        let size = out.len() - start;
        bits.put(kind as u64, 3);
        if size == 32768 {
            bits.put(1, 1);
            g.class("block of the default size");
        } else {
            bits.put(0, 1);
            bits.put(size as u64, 16);
        }
        let aligned = if kind == 2 {
            let mut sizes = alphabet_code(g, &aligned_used, 7, 2);
            sizes.truncate(8);
            for s in &sizes {
                bits.put(*s as u64, 3);
            }
            g.class("aligned offset block");
            sizes
        } else {
            g.class("verbatim block");
            Vec::new()
        };
        let (mut mu, mut lu) = (vec![false; 496], vec![false; 249]);
        for t in &tokens {
            match t {
                Token::Literal(b) => mu[*b as usize] = true,
                Token::Match(slot, _, length) => {
                    let header = (length - 2).min(7);
                    mu[256 + 8 * slot + header] = true;
                    if header == 7 {
                        lu[length - 9] = true;
                    }
                }
            }
        }
        let new_main = alphabet_code(g, &mu, 16, 2);
        let no_lengths = !lu.contains(&true);
        let new_lengths = if no_lengths && g.chance(2, 3) {
            g.class("no length codes");
            vec![0u8; 249]
        } else {
            alphabet_code(g, &lu, 16, 2)
        };
        put_code_sizes(g, &mut bits, &main[..256], &new_main[..256]);
        put_code_sizes(g, &mut bits, &main[256..], &new_main[256..]);
        put_code_sizes(g, &mut bits, &lengths, &new_lengths);
        g.class_if(new_main.contains(&16), "16 bit codes");
        main = new_main;
        lengths = new_lengths;
        let (mc, lc, ac) = (canonical(&main), canonical(&lengths), canonical(&aligned));
        for t in &tokens {
            match t {
                Token::Literal(b) => bits.put(mc[*b as usize] as u64, main[*b as usize] as usize),
                Token::Match(slot, value, length) => {
                    let header = (length - 2).min(7);
                    let s = 256 + 8 * slot + header;
                    bits.put(mc[s] as u64, main[s] as usize);
                    if header == 7 {
                        bits.put(lc[length - 9] as u64, lengths[length - 9] as usize);
                    }
                    let extra = slots[*slot].1;
                    if kind == 2 && extra >= 3 {
                        bits.put((*value >> 3) as u64, extra - 3);
                        bits.put(ac[value & 7] as u64, aligned[value & 7] as usize);
                    } else {
                        bits.put(*value as u64, extra);
                    }
                }
            }
        }
    }
    g.class_if(blocks > 1, "several blocks");
    let translated = calls(&out.data);
    g.class_if(translated != out.data, "translated call");
    out.data = translated;
    Stream::of(bits.into_words(), out)
}
