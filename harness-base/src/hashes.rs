//! C01 message digests.

use keramics_hashes::*;
use pbt::*;

pub fn md5(data: &[u8]) -> Vec<u8> {
    let s: [u32; 16] = [7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21];
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    let k: Vec<u32> = (0..64)
        .map(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32)
        .collect();
    for block in pad(data, 64, false).chunks(64) {
        let m: Vec<u32> = block
            .chunks(4)
            .map(|c| u32::from_le_bytes(c.try_into().unwrap()))
            .collect();
        let [mut a, mut b, mut c, mut d] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let f = f.wrapping_add(a).wrapping_add(k[i]).wrapping_add(m[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(f.rotate_left(s[(i / 16) * 4 + i % 4]));
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|v| v.to_le_bytes()).collect()
}

fn pad(data: &[u8], block: usize, big: bool) -> Vec<u8> {
    let length_size = block / 8;
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % block != block - length_size {
        m.push(0);
    }
    let bits = data.len() as u128 * 8;
    if big {
        m.extend_from_slice(&bits.to_be_bytes()[16 - length_size..]);
    } else {
        m.extend_from_slice(&bits.to_le_bytes()[..length_size]);
    }
    m
}

pub fn sha1(data: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    for block in pad(data, 64, true).chunks(64) {
        let mut w: Vec<u32> = block
            .chunks(4)
            .map(|c| u32::from_be_bytes(c.try_into().unwrap()))
            .collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wi);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|v| v.to_be_bytes()).collect()
}

fn primes(n: usize) -> Vec<u64> {
    (2u64..)
        .filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0))
        .take(n)
        .collect()
}

/// floor(frac(p^(1/root)) * 2^64) with integer arithmetic.
fn root_fraction(p: u64, root: u32) -> u64 {
    // Largest x with x^root <= p * 2^(64 * root), computed on 256-bit values.
    fn mul(a: &[u64; 6], b: &[u64; 6]) -> [u64; 6] {
        let mut r = [0u64; 6];
        for i in 0..6 {
            let mut carry: u128 = 0;
            for j in 0..6 - i {
                let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
        }
        r
    }
    let mut target = [0u64; 6];
    target[root as usize] = p;
    let mut x: u128 = 0;
    for bit in (0..70).rev() {
        let c = x | (1u128 << bit);
        let v = [c as u64, (c >> 64) as u64, 0, 0, 0, 0];
        let mut power = v;
        for _ in 1..root {
            power = mul(&power, &v);
        }
        let less_equal = power.iter().rev().cmp(target.iter().rev()) != std::cmp::Ordering::Greater;
        if less_equal {
            x = c;
        }
    }
    x as u64
}

struct Tables {
    k512: Vec<u64>,
    h512: Vec<u64>,
    h384: Vec<u64>,
}

fn tables() -> &'static Tables {
    static T: std::sync::OnceLock<Tables> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let p = primes(80);
        Tables {
            k512: p.iter().map(|p| root_fraction(*p, 3)).collect(),
            h512: p[..8].iter().map(|p| root_fraction(*p, 2)).collect(),
            h384: p[8..16].iter().map(|p| root_fraction(*p, 2)).collect(),
        }
    })
}

fn sha2_32(data: &[u8], init: Vec<u32>, words: usize) -> Vec<u8> {
    let k: Vec<u32> = tables().k512[..64].iter().map(|v| (v >> 32) as u32).collect();
    let mut h = init;
    for block in pad(data, 64, true).chunks(64) {
        let mut w: Vec<u32> = block
            .chunks(4)
            .map(|c| u32::from_be_bytes(c.try_into().unwrap()))
            .collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(
                w[i - 16]
                    .wrapping_add(s0)
                    .wrapping_add(w[i - 7])
                    .wrapping_add(s1),
            );
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(k[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v.pop();
            v[3] = v[3].wrapping_add(t1);
            v.insert(0, t1.wrapping_add(s0).wrapping_add(maj));
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().take(words).flat_map(|v| v.to_be_bytes()).collect()
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    sha2_32(data, tables().h512.iter().map(|v| (v >> 32) as u32).collect(), 8)
}

pub fn sha224(data: &[u8]) -> Vec<u8> {
    sha2_32(data, tables().h384.iter().map(|v| *v as u32).collect(), 7)
}

pub fn sha512(data: &[u8]) -> Vec<u8> {
    let k = &tables().k512;
    let mut h = tables().h512.clone();
    for block in pad(data, 128, true).chunks(128) {
        let mut w: Vec<u64> = block
            .chunks(8)
            .map(|c| u64::from_be_bytes(c.try_into().unwrap()))
            .collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w.push(
                w[i - 16]
                    .wrapping_add(s0)
                    .wrapping_add(w[i - 7])
                    .wrapping_add(s1),
            );
        }
        let mut v = h.clone();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7]
                .wrapping_add(s1)
                .wrapping_add(ch)
                .wrapping_add(k[i])
                .wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v.pop();
            v[3] = v[3].wrapping_add(t1);
            v.insert(0, t1.wrapping_add(s0).wrapping_add(maj));
        }
        for (x, y) in h.iter_mut().zip(v) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|v| v.to_be_bytes()).collect()
}

pub const NAMES: [&str; 5] = ["MD5", "SHA-1", "SHA-224", "SHA-256", "SHA-512"];

pub fn reference(algorithm: usize, data: &[u8]) -> Vec<u8> {
    match algorithm {
        0 => md5(data),
        1 => sha1(data),
        2 => sha224(data),
        3 => sha256(data),
        _ => sha512(data),
    }
}

fn context(algorithm: usize) -> Box<dyn DigestHashContext> {
    match algorithm {
        0 => Box::new(Md5Context::new()),
        1 => Box::new(Sha1Context::new()),
        2 => Box::new(Sha224Context::new()),
        3 => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    }
}

/// Every message length 0..=640 for every algorithm, one update.
fn lengths(g: &mut Gen) -> CaseResult {
    let index = g.below_or(5 * 641 * 2 - 1);
    let algorithm = (index % 5) as usize;
    let length = ((index / 5) % 641) as usize;
    let zeros = index / (5 * 641) == 1;
    let mut data = vec![0u8; length];
    if !zeros {
        Rng(index).fill(&mut data);
    }
    g.nontrivial = length > 0;
    g.note(|| format!("{} of {} bytes, zeros {}", NAMES[algorithm], length, zeros));
    let mut c = context(algorithm);
    c.update(&data);
    check_eq!(hex(&c.finalize()), hex(&reference(algorithm, &data)), "{} of {} bytes", NAMES[algorithm], length);
    Ok(())
}

/// All two-update splits of messages around the block boundaries.
fn two_way_splits(g: &mut Gen) -> CaseResult {
    const LENGTHS: [usize; 16] = [1, 2, 55, 56, 57, 63, 64, 65, 111, 112, 113, 127, 128, 129, 192, 257];
    let algorithm = g.usize(0, 4);
    let length = *g.pick(&LENGTHS);
    let split = g.usize(0, length);
    let middle_empty = g.bool();
    let data = g.blob(length);
    g.nontrivial = split > 0 && split < length;
    g.class_if(middle_empty, "empty update between");
    let mut c = context(algorithm);
    c.update(&data[..split]);
    if middle_empty {
        c.update(&[]);
    }
    c.update(&data[split..]);
    g.note(|| format!("{} {} bytes split at {}", NAMES[algorithm], length, split));
    check_eq!(hex(&c.finalize()), hex(&reference(algorithm, &data)), "{} {} bytes split at {}", NAMES[algorithm], length, split);
    Ok(())
}

/// Histories of update and finalize on several live contexts.
fn histories(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 3);
    let algorithms: Vec<usize> = (0..n).map(|_| g.usize(0, 4)).collect();
    let mut contexts: Vec<_> = algorithms.iter().map(|a| context(*a)).collect();
    let mut messages: Vec<Vec<u8>> = vec![Vec::new(); n];
    let mut finals = vec![0usize; n];
    let mut updates = vec![0usize; n];
    let steps = g.usize(1, 14);
    for step in 0..steps {
        let i = if n > 1 { g.usize(0, n - 1) } else { 0 };
        let block = if algorithms[i] == 4 { 128 } else { 64 };
        if g.chance(1, 4) {
            let got = contexts[i].finalize();
            let want = reference(algorithms[i], &messages[i]);
            g.note(|| format!("finalize {} after {} bytes in {} updates", NAMES[algorithms[i]], messages[i].len(), updates[i]));
            check_eq!(hex(&got), hex(&want), "step {}: {} of {} bytes in {} updates, {} earlier digests", step, NAMES[algorithms[i]], messages[i].len(), updates[i], finals[i]);
            g.class_if(finals[i] > 0 && !messages[i].is_empty(), "digest after reset");
            g.class_if(updates[i] > 1 && messages[i].len() > block, "multi-update multi-block");
            if updates[i] > 1 && messages[i].len() > block {
                g.nontrivial();
            }
            messages[i].clear();
            updates[i] = 0;
            finals[i] += 1;
        } else {
            // Aim at a total around a block boundary.
            let length = match g.below_or(3) {
                0 => g.usize(0, 9),
                1 => {
                    let used = messages[i].len() % block;
                    (block - used + g.usize(0, 4)).saturating_sub(2)
                }
                2 => {
                    let used = messages[i].len() % block;
                    let pad_at = block - block / 8;
                    (pad_at + block - used + g.usize(0, 4) - 2) % (2 * block)
                }
                _ => g.length(1200, block),
            };
            let data = g.blob(length);
            contexts[i].update(&data);
            messages[i].extend_from_slice(&data);
            updates[i] += 1;
        }
    }
    for i in 0..n {
        let got = contexts[i].finalize();
        let want = reference(algorithms[i], &messages[i]);
        check_eq!(hex(&got), hex(&want), "end: {} of {} bytes in {} updates, {} earlier digests", NAMES[algorithms[i]], messages[i].len(), updates[i], finals[i]);
    }
    Ok(())
}

/// Larger messages.
fn large(g: &mut Gen) -> CaseResult {
    let algorithm = g.usize(0, 4);
    let max = if g.tier_thorough { 3 << 20 } else { 200_000 };
    let length = g.usize(4096, max);
    let data = g.blob(length);
    let chunk = g.usize(1, 70_000);
    let mut c = context(algorithm);
    for part in data.chunks(chunk) {
        c.update(part);
    }
    g.nontrivial();
    g.note(|| format!("{} {} bytes in chunks of {}", NAMES[algorithm], length, chunk));
    check_eq!(hex(&c.finalize()), hex(&reference(algorithm, &data)), "{} {} bytes in chunks of {}", NAMES[algorithm], length, chunk);
    Ok(())
}

/// Digests of messages that repeat long_block(), made with Python's hashlib (OpenSSL).
const LONG: [(u64, [&str; 5]); 2] = [
    (
        536870973,
        [
            "c0031c9eec5887653050a553bbd42fe1",
            "9ad1f0c6680b6fad9721704149204fec9ad0b501",
            "59ed16b22f8d636aa0be1550657cd420e7daee0c084e9a7dd7618912",
            "7f8671d4e866e44893d46ac509eb2df1734f420df92620dadb1c4020b3aed585",
            "51ea3051250559a00f50fad10d15fad969fc46b6a1607754caa1ce029049afbd01cde2aa5aff09b328ca84a05eb17d48f71dbf5140d89e4881b2bcbd40dd5daf",
        ],
    ),
    (
        4294967421,
        [
            "f8b59546bfdab6d98fc9378a1d663af6",
            "659aca66c4a1fb73c0972b541853b6ee14be6702",
            "c76374d43e63853b5b250b3bac7b7ae25a5cada16d3beb50b6555f7c",
            "a6be70dc59fcbb5e203f1e23181cf4a8dde86666de377c52ecdea7c93e66ad0b",
            "b312b1b445e6179fb426b77f3295da322b8f549bd9a308a26b9541716891939d3482fd16229b40523aaf7e5e5d70175b88d56c535e6d7daaaa6444cb40593585",
        ],
    ),
];

fn long_block() -> Vec<u8> {
    (0..1u64 << 20).map(|i| (((i * i * 31) >> 7) ^ (i * 17)) as u8).collect()
}

/// Messages of which the size in bits, or in bytes, needs more than 32 bits.
fn very_long(g: &mut Gen) -> CaseResult {
    long(g, 0)
}

fn longest(g: &mut Gen) -> CaseResult {
    long(g, 1)
}

fn long(g: &mut Gen, which: usize) -> CaseResult {
    let index = g.below_or(if which == 0 { 9 } else { 4 }) as usize;
    let algorithm = index % 5;
    let whole = which == 1 || index / 5 == 1;
    let (length, digests) = LONG[which];
    let block = long_block();
    let mut c = context(algorithm);
    if whole && length < 1 << 32 {
        let mut data = Vec::with_capacity(length as usize);
        while data.len() < length as usize {
            let n = block.len().min(length as usize - data.len());
            data.extend_from_slice(&block[..n]);
        }
        c.update(&data);
    } else {
        // Updates of one MiB, or of sizes that are no multiple of the block.
        let mut left = length;
        let mut at = 0usize;
        while left > 0 {
            let most = if whole { 250_007 } else { block.len() };
            let n = most.min(block.len() - at).min(left as usize);
            c.update(&block[at..at + n]);
            at = (at + n) % block.len();
            left -= n as u64;
        }
    }
    g.nontrivial();
    g.class_if(length * 8 >= 1 << 32, "size in bits of more than 32 bits");
    g.class_if(length >= 1 << 32, "size in bytes of more than 32 bits");
    g.note(|| format!("{} {} bytes, {}", NAMES[algorithm], length, if whole { "large or odd updates" } else { "updates of 1 MiB" }));
    check_eq!(hex(&c.finalize()), digests[algorithm], "{} of {} bytes", NAMES[algorithm], length);
    Ok(())
}

pub static C01: Property = Property {
    id: "C01",
    rule: "messages and histories of update/finalize calls on up to three live contexts of MD5, SHA-1, SHA-224, SHA-256, SHA-512, lengths steered to block and padding boundaries, digests compared with whole-message textbook implementations; non-trivial: a non-empty message (lengths), a proper split (two_way_splits), a digest of a multi-block message fed by more than one update (histories)",
    assumptions: &["the textbook reference implementations in harness-base/src/hashes.rs (constants derived from their definitions) are right", "messages longer than 3 MiB are two fixed ones, of just above 512 MiB and 4 GiB, whose digests were made with OpenSSL; messages of more than 4 GiB + 125 bytes are not tried"],
    facets: &[
        Facet { name: "lengths", work: Work::Exhaustive(5 * 641 * 2), case: lengths },
        Facet { name: "two_way_splits", work: Work::Random(20_000, 200_000), case: two_way_splits },
        Facet { name: "histories", work: Work::Random(40_000, 1_500_000), case: histories },
        Facet { name: "large", work: Work::Random(200, 2_000), case: large },
        Facet { name: "very_long", work: Work::Exhaustive(10), case: very_long },
        Facet { name: "longest", work: Work::ExhaustiveThorough(5, 2), case: longest },
    ],
};
