//! Building blocks shared by the encoders: bit writers, canonical codes, and the model of a
//! Lempel-Ziv output.

use pbt::*;

/// Length or distance with a bias to the ends of the range and to powers of two.
pub fn edge(g: &mut Gen, lo: usize, hi: usize) -> usize {
    if lo >= hi {
        return lo;
    }
    match g.below_or(7) {
        0 | 1 => lo + g.usize(0, (hi - lo).min(3)),
        2 => hi - g.usize(0, (hi - lo).min(2)),
        3 | 4 => g.usize(lo, hi.min(lo + 40)),
        5 => {
            let mut k = 0;
            while (2usize << k) <= hi {
                k += 1;
            }
            let base = 1i64 << g.usize(0, k);
            let v = base + g.usize(0, 2) as i64 - 1;
            (v.max(lo as i64) as usize).min(hi)
        }
        _ => g.usize(lo, hi),
    }
}

/// Literal bytes: mostly printable, sometimes bytes that mean something to a format.
pub fn literals(g: &mut Gen, n: usize) -> Vec<u8> {
    if n > 6 || g.chance(1, 3) {
        return g.blob(n);
    }
    let special = [0u8, 0xff, 0xe8, 0x06, b'a', b'b', b'c'];
    (0..n).map(|_| if g.chance(2, 3) { *g.pick(&special) } else { g.u8() }).collect()
}

/// Output of a Lempel-Ziv decoder, by definition: a match repeats the byte `distance` back.
#[derive(Clone, Default)]
pub struct Output {
    pub data: Vec<u8>,
    pub overlap: bool,
    pub matches: usize,
}

impl Output {
    pub fn literal(&mut self, bytes: &[u8]) {
        self.data.extend_from_slice(bytes);
    }

    pub fn repeat(&mut self, distance: usize, length: usize) {
        assert!(distance >= 1 && distance <= self.data.len());
        self.overlap |= distance < length;
        self.matches += 1;
        for _ in 0..length {
            self.data.push(self.data[self.data.len() - distance]);
        }
    }

    pub fn len(&self) -> usize {
        self.data.len()
    }
}

/// Least significant bit first.
#[derive(Default)]
pub struct BitsLsb {
    pub out: Vec<u8>,
    used: usize,
}

impl BitsLsb {
    pub fn put(&mut self, value: u64, n: usize) {
        for i in 0..n {
            if self.used % 8 == 0 {
                self.out.push(0);
            }
            let last = self.out.len() - 1;
            self.out[last] |= (((value >> i) & 1) as u8) << (self.used % 8);
            self.used += 1;
        }
    }
    /// A Huffman code: most significant bit first.
    pub fn code(&mut self, code: u32, n: usize) {
        for i in (0..n).rev() {
            self.put(((code >> i) & 1) as u64, 1);
        }
    }
    pub fn align(&mut self, with_ones: bool) {
        while self.used % 8 != 0 {
            self.put(with_ones as u64, 1);
        }
    }
    pub fn bytes(&mut self, data: &[u8]) {
        assert!(self.used % 8 == 0);
        self.out.extend_from_slice(data);
        self.used += 8 * data.len();
    }
    pub fn bit_len(&self) -> usize {
        self.used
    }
}

/// Most significant bit first, in units of `unit` bytes that are stored in little-endian order.
pub struct BitsMsb {
    bits: Vec<bool>,
    half: bool,
}

impl BitsMsb {
    pub fn new() -> Self {
        Self { bits: Vec::new(), half: false }
    }
    pub fn put(&mut self, value: u64, n: usize) {
        for i in (0..n).rev() {
            self.bits.push((value >> i) & 1 == 1);
        }
    }
    pub fn bit_len(&self) -> usize {
        self.bits.len()
    }
    pub fn into_bytes(self) -> Vec<u8> {
        let mut out = vec![0u8; (self.bits.len() + 7) / 8];
        for (i, b) in self.bits.iter().enumerate() {
            if *b {
                out[i / 8] |= 0x80 >> (i % 8);
            }
        }
        out
    }
    /// 16-bit little-endian words.
    pub fn into_words(self) -> Vec<u8> {
        let mut out = self.into_bytes();
        if out.len() % 2 == 1 {
            out.push(0);
        }
        for pair in out.chunks_mut(2) {
            pair.swap(0, 1);
        }
        out
    }
}

/// Sizes of a complete prefix code for `n` >= 2 symbols with sizes of at most `max`.
pub fn complete_code(g: &mut Gen, n: usize, max: usize) -> Vec<u8> {
    assert!(n >= 2 && (max >= 20 || n <= 1 << max));
    let mut leaves: Vec<u8> = vec![1, 1];
    let shape = g.below_or(3);
    let mut rng = Rng(g.u64());
    while leaves.len() < n {
        let open: Vec<usize> = (0..leaves.len()).filter(|i| (leaves[*i] as usize) < max).collect();
        // A split costs one level: keep room for the rest.
        let i = match shape {
            // As deep as possible.
            0 => *open.iter().max_by_key(|i| leaves[**i]).unwrap(),
            // As flat as possible.
            1 => *open.iter().min_by_key(|i| leaves[**i]).unwrap(),
            _ => open[(rng.next() % open.len() as u64) as usize],
        };
        leaves[i] += 1;
        let size = leaves[i];
        leaves.push(size);
    }
    // Assign the sizes in a random order.
    for i in (1..leaves.len()).rev() {
        let j = (rng.next() % (i as u64 + 1)) as usize;
        leaves.swap(i, j);
    }
    leaves
}

/// Sizes per symbol for an alphabet of `n` symbols: every used symbol has a code, and some of
/// the others.
pub fn alphabet_code(g: &mut Gen, used: &[bool], max: usize, minimum: usize) -> Vec<u8> {
    let n = used.len();
    let mut chosen: Vec<usize> = (0..n).filter(|i| used[*i]).collect();
    let extra = if g.chance(1, 3) { g.usize(0, n / 8 + 1) } else { 0 };
    let mut rng = Rng(g.u64());
    let mut wanted = (chosen.len() + extra).max(minimum).min(n);
    wanted = wanted.min(if max < 16 { 1 << max } else { n });
    while chosen.len() < wanted {
        let i = (rng.next() % n as u64) as usize;
        if !chosen.contains(&i) {
            chosen.push(i);
        }
    }
    chosen.sort();
    let mut sizes = vec![0u8; n];
    match chosen.len() {
        0 => {}
        1 => sizes[chosen[0]] = 1,
        m => {
            for (i, s) in chosen.iter().zip(complete_code(g, m, max)) {
                sizes[*i] = s;
            }
        }
    }
    sizes
}

/// Canonical codes by the definition in RFC 1951: in order of size, then of symbol.
pub fn canonical(sizes: &[u8]) -> Vec<u32> {
    let mut codes = vec![0u32; sizes.len()];
    let mut code = 0u32;
    for size in 1..=32u8 {
        code <<= 1;
        for (symbol, s) in sizes.iter().enumerate() {
            if *s == size {
                codes[symbol] = code;
                code += 1;
            }
        }
    }
    codes
}

/// Buffer contents before a call: a decoder may not depend on them.
pub fn buffer(g: &mut Gen, size: usize) -> Vec<u8> {
    let fill = *g.pick(&[0u8, 0xff, 0xe8, 0x5a]);
    vec![fill; size]
}

impl BitsMsb {
    /// A byte of a byte aligned part of a stream of 16-bit words: the words are swapped later.
    pub fn put_byte(&mut self, byte: u8) {
        if self.half {
            let start = self.bits.len() - 16;
            for i in 0..8 {
                self.bits[start + i] = byte >> (7 - i) & 1 == 1;
            }
        } else {
            assert!(self.bits.len() % 16 == 0);
            self.put(byte as u64, 16);
        }
        self.half = !self.half;
    }
}
