//! C02 CRC-32, C03 Adler-32.

use keramics_checksums::*;
use pbt::*;

/// Bit by bit CRC without tables. `register` is the register value, not complemented.
fn crc_bits(mut register: u32, polynomial: u32, reversed: bool, data: &[u8]) -> u32 {
    for byte in data {
        for bit in 0..8 {
            if reversed {
                let inbit = ((byte >> bit) & 1) as u32;
                let feedback = (register & 1) ^ inbit;
                register >>= 1;
                if feedback == 1 {
                    register ^= polynomial;
                }
            } else {
                let inbit = ((byte >> (7 - bit)) & 1) as u32;
                let feedback = (register >> 31) ^ inbit;
                register <<= 1;
                if feedback == 1 {
                    register ^= polynomial;
                }
            }
        }
    }
    register
}

enum Crc {
    Normal(Crc32Context),
    Reversed(ReversedCrc32Context),
}

impl Crc {
    fn new(reversed: bool, polynomial: u32, initial: u32) -> Crc {
        if reversed {
            Crc::Reversed(ReversedCrc32Context::new(polynomial, initial))
        } else {
            Crc::Normal(Crc32Context::new(polynomial, initial))
        }
    }
    fn update(&mut self, data: &[u8]) {
        match self {
            Crc::Normal(c) => c.update(data),
            Crc::Reversed(c) => c.update(data),
        }
    }
    fn finalize(&mut self) -> u32 {
        match self {
            Crc::Normal(c) => c.finalize(),
            Crc::Reversed(c) => c.finalize(),
        }
    }
}

const POLYNOMIALS: [(bool, u32); 6] = [
    (true, 0xedb88320),
    (true, 0x82f63b78),
    (false, 0x04c11db7),
    (false, 0x1edc6f41),
    (true, 0xeb31d82e),
    (false, 0x741b8cd7),
];

fn crc_history(g: &mut Gen) -> CaseResult {
    let n = g.usize(1, 2);
    let mut parameters = Vec::new();
    for _ in 0..n {
        let (reversed, polynomial) = if g.chance(1, 4) {
            (g.bool(), g.u32())
        } else {
            *g.pick(&POLYNOMIALS)
        };
        let initial = match g.below_or(3) {
            0 => 0,
            1 => 0xffffffff,
            _ => g.u32(),
        };
        parameters.push((reversed, polynomial, initial));
    }
    let mut contexts: Vec<Crc> = parameters.iter().map(|(r, p, i)| Crc::new(*r, *p, *i)).collect();
    let mut registers: Vec<u32> = parameters.iter().map(|(_, _, i)| i ^ 0xffffffff).collect();
    let mut sizes = vec![0usize; n];
    let mut updates = vec![0; n];
    let mut finals = vec![0; n];
    let steps = g.usize(1, 10);
    for step in 0..=steps {
        let i = if n > 1 { g.usize(0, n - 1) } else { 0 };
        let (reversed, polynomial, initial) = parameters[i];
        if step == steps || g.chance(1, 4) {
            let got = contexts[i].finalize();
            let want = registers[i] ^ 0xffffffff;
            g.note(|| format!("reversed {} polynomial {:#010x} initial {:#010x}: {} bytes in {} updates, {} earlier", reversed, polynomial, initial, sizes[i], updates[i], finals[i]));
            check_eq!(got, want, "CRC-32 reversed {} polynomial {:#x} initial {:#x} after {} bytes in {} updates, {} earlier checksums", reversed, polynomial, initial, sizes[i], updates[i], finals[i]);
            if updates[i] > 1 && sizes[i] > 1 {
                g.nontrivial();
            }
            g.class_if(finals[i] > 0 && sizes[i] > 0, "checksum after reset");
            g.class_if(initial != 0, "initial value not 0");
            registers[i] = initial ^ 0xffffffff;
            sizes[i] = 0;
            updates[i] = 0;
            finals[i] += 1;
        } else {
            let length = g.length(700, 64);
            let data = g.blob(length);
            contexts[i].update(&data);
            registers[i] = crc_bits(registers[i], polynomial, reversed, &data);
            sizes[i] += length;
            updates[i] += 1;
        }
    }
    Ok(())
}

/// crc(A ++ B) continued by passing crc(A) as the initial value.
fn crc_chained(g: &mut Gen) -> CaseResult {
    let (reversed, polynomial) = *g.pick(&POLYNOMIALS);
    let la = g.length(300, 16);
    let lb = g.length(300, 16);
    let a = g.blob(la);
    let b = g.blob(lb);
    let mut first = Crc::new(reversed, polynomial, 0);
    first.update(&a);
    let middle = first.finalize();
    let mut second = Crc::new(reversed, polynomial, middle);
    second.update(&b);
    let got = second.finalize();
    let want = crc_bits(crc_bits(0xffffffff, polynomial, reversed, &a), polynomial, reversed, &b) ^ 0xffffffff;
    g.nontrivial = la > 0 && lb > 0;
    g.note(|| format!("polynomial {:#x}: {} + {} bytes", polynomial, la, lb));
    check_eq!(got, want, "checksum continued from the checksum of {} bytes over {} bytes", la, lb);
    Ok(())
}

/// Any single changed bit, and any burst up to 32 bits, changes the checksum.
fn crc_detects(g: &mut Gen) -> CaseResult {
    let (reversed, polynomial) = *g.pick(&POLYNOMIALS[..4]);
    let n = g.usize(4, 200);
    let data = g.blob(n);
    let mut changed = data.clone();
    let start = g.usize(0, n * 8 - 1);
    let width = g.usize(1, 32.min(n * 8 - start));
    let pattern = g.u32() | 1;
    // In transmission order of the bits.
    for i in 0..width {
        if i == 0 || (pattern >> i) & 1 == 1 {
            let p = start + i;
            changed[p / 8] ^= if reversed { 1 << (p % 8) } else { 0x80 >> (p % 8) };
        }
    }
    g.nontrivial = width > 1;
    g.note(|| format!("{} bytes, burst of {} bits at bit {}", n, width, start));
    let mut c = Crc::new(reversed, polynomial, 0);
    c.update(&data);
    let x = c.finalize();
    c.update(&changed);
    let y = c.finalize();
    check!(x != y, "a burst of {} bits at bit {} of {} bytes is not detected: {:#010x}", width, start, n, x);
    Ok(())
}

/// Tens of thousands of bytes in one update or two.
fn crc_large(g: &mut Gen) -> CaseResult {
    let (reversed, polynomial) = *g.pick(&POLYNOMIALS);
    let length = crate::encodings::large_size(g);
    let data = adler_data(g, length);
    let split = if g.bool() { length } else { g.usize(0, length) };
    let mut c = Crc::new(reversed, polynomial, 0);
    c.update(&data[..split]);
    c.update(&data[split..]);
    let want = crc_bits(0xffffffff, polynomial, reversed, &data) ^ 0xffffffff;
    g.nontrivial();
    g.note(|| format!("polynomial {:#x}: {} bytes split at {}", polynomial, length, split));
    check_eq!(c.finalize(), want, "checksum of {} bytes split at {}", length, split);
    Ok(())
}

pub static C02: Property = Property {
    id: "C02",
    rule: "histories of update/finalize calls over one or two contexts with known and arbitrary 32-bit polynomials and initial values, compared with a bit-serial CRC register; non-trivial: a checksum of data fed by more than one update (history), two non-empty parts (chained), a burst wider than one bit (detects)",
    assumptions: &["the bit-serial register in harness-base/src/checksums.rs is right; the initial value is the checksum of preceding data, as the contexts complement it"],
    facets: &[
        Facet { name: "history", work: Work::Random(40_000, 1_000_000), case: crc_history },
        Facet { name: "chained", work: Work::Random(15_000, 300_000), case: crc_chained },
        Facet { name: "detects", work: Work::Random(15_000, 300_000), case: crc_detects },
        Facet { name: "large", work: Work::Random(100, 3_000), case: crc_large },
    ],
};

fn adler_step(state: (u64, u64), data: &[u8]) -> (u64, u64) {
    let (mut a, mut b) = state;
    for byte in data {
        a = (a + *byte as u64) % 65521;
        b = (b + a) % 65521;
    }
    (a, b)
}

fn adler_data(g: &mut Gen, length: usize) -> Vec<u8> {
    match g.below_or(3) {
        0 => vec![0xff; length],
        1 => {
            let low = g.range(0xf0, 0xff) as u8;
            let seed = g.u64();
            let mut rng = Rng(seed);
            (0..length).map(|_| low | (rng.next() as u8 & 0x0f)).collect()
        }
        _ => g.blob(length),
    }
}

fn adler_history(g: &mut Gen) -> CaseResult {
    // The initial value is an Adler-32 value: both sums below 65521.
    let initial = match g.below_or(3) {
        0 | 1 => 1u32,
        2 => ((g.range(65500, 65520) as u32) << 16) | g.range(65500, 65520) as u32,
        _ => ((g.range(0, 65520) as u32) << 16) | g.range(0, 65520) as u32,
    };
    let start = ((initial & 0xffff) as u64, (initial >> 16) as u64);
    let mut c = Adler32Context::new(initial);
    let mut state = start;
    let (mut size, mut updates, mut finals) = (0usize, 0, 0);
    let steps = g.usize(1, 8);
    for step in 0..=steps {
        if step == steps || g.chance(1, 4) {
            let got = c.finalize();
            let want = ((state.1 << 16) | state.0) as u32;
            g.note(|| format!("initial {:#010x}: {} bytes in {} updates, {} earlier", initial, size, updates, finals));
            check_eq!(got, want, "Adler-32 initial {:#010x} after {} bytes in {} updates, {} earlier checksums", initial, size, updates, finals);
            if updates > 1 && size > 300 {
                g.nontrivial();
            }
            g.class_if(size > 5552, "longer than the modulo interval");
            g.class_if(finals > 0 && size > 0, "checksum after reset");
            state = start;
            size = 0;
            updates = 0;
            finals += 1;
        } else {
            let length = match g.below_or(5) {
                0 => g.usize(5540, 5560),
                1 => g.usize(2 * 5552 - 3, 2 * 5552 + 3),
                2 => g.usize(250, 270),
                _ => g.length(6000, 257),
            };
            let data = adler_data(g, length);
            c.update(&data);
            state = adler_step(state, &data);
            size += length;
            updates += 1;
        }
    }
    Ok(())
}

/// Steers the running sums to chosen residues, including 0 and 65520.
fn adler_boundary(g: &mut Gen) -> CaseResult {
    let target_a = *g.pick(&[0u64, 1, 65520, 65519, 65519 - 255]);
    let prefix_length = g.usize(0, 40);
    let prefix = g.bytes(prefix_length);
    let mut data = prefix;
    let mut state = adler_step((1, 0), &data);
    // Append 0xff bytes until one byte reaches the target.
    let mut guard = 0;
    loop {
        let need = (target_a + 65521 - state.0) % 65521;
        let byte = need.min(255) as u8;
        data.push(byte);
        state = adler_step(state, &[byte]);
        guard += 1;
        if state.0 == target_a || guard > 600 {
            break;
        }
    }
    let zeros = g.usize(0, 300);
    data.extend(std::iter::repeat(0).take(zeros));
    state = adler_step(state, &vec![0; zeros]);
    let split = g.usize(0, data.len());
    let mut c = Adler32Context::new(1);
    c.update(&data[..split]);
    c.update(&data[split..]);
    g.nontrivial = data.len() > 250;
    g.note(|| format!("{} bytes reaching low sum {}, split at {}", data.len(), target_a, split));
    check_eq!(c.finalize(), ((state.1 << 16) | state.0) as u32, "{} bytes with low sum {} split at {}", data.len(), target_a, split);
    Ok(())
}

/// Tens of thousands of bytes in one update or two.
fn adler_large(g: &mut Gen) -> CaseResult {
    let length = crate::encodings::large_size(g);
    let data = adler_data(g, length);
    let split = if g.bool() { length } else { g.usize(0, length) };
    let mut c = Adler32Context::new(1);
    c.update(&data[..split]);
    c.update(&data[split..]);
    let state = adler_step((1, 0), &data);
    g.nontrivial();
    g.note(|| format!("{} bytes split at {}", length, split));
    check_eq!(c.finalize(), ((state.1 << 16) | state.0) as u32, "Adler-32 of {} bytes split at {}", length, split);
    Ok(())
}

pub static C03: Property = Property {
    id: "C03",
    rule: "histories of update/finalize with data biased to high byte values and lengths around the modulo interval, and messages built to reach chosen residues, compared with per-byte modular sums; non-trivial: more than 300 bytes in more than one update (history), more than 250 bytes (boundary)",
    assumptions: &["initial values are Adler-32 values (both sums below 65521)"],
    facets: &[
        Facet { name: "history", work: Work::Random(15_000, 300_000), case: adler_history },
        Facet { name: "boundary", work: Work::Random(20_000, 300_000), case: adler_boundary },
        Facet { name: "large", work: Work::Random(200, 5_000), case: adler_large },
    ],
};
