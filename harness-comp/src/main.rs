//! C30 to C38: the decompressors, against encoders written from the format descriptions.

mod bzip2;
mod common;
mod deflate;
mod lz;
mod lzfse;
mod lzx;

use common::*;
use keramics_compression::*;
use pbt::*;

/// An encoded stream and what it stands for.
pub struct Stream {
    pub encoded: Vec<u8>,
    pub expected: Vec<u8>,
    pub overlap: bool,
    pub matches: usize,
    /// The stream says where it ends.
    pub terminated: bool,
}

impl Stream {
    fn of(encoded: Vec<u8>, out: Output) -> Stream {
        Stream { encoded, expected: out.data, overlap: out.overlap, matches: out.matches, terminated: false }
    }
    fn terminated(mut self, terminated: bool) -> Stream {
        self.terminated = terminated;
        self
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Codec {
    Adc,
    Lznt1,
    Lzvn,
    Lzfse,
    Deflate,
    Zlib,
    Bzip2,
    Lzx,
}

const CODECS: [Codec; 8] = [Codec::Adc, Codec::Lznt1, Codec::Lzvn, Codec::Lzfse, Codec::Deflate, Codec::Zlib, Codec::Bzip2, Codec::Lzx];

enum Context {
    Adc(AdcContext),
    Lznt1(Lznt1Context),
    Lzvn(LzvnContext),
    Lzfse(LzfseContext),
    Deflate(DeflateContext),
    Zlib(ZlibContext),
    Bzip2(Bzip2Context),
    Lzx(LzxContext),
}

macro_rules! each {
    ($self:expr, $c:ident => $e:expr) => {
        match $self {
            Context::Adc($c) => $e,
            Context::Lznt1($c) => $e,
            Context::Lzvn($c) => $e,
            Context::Lzfse($c) => $e,
            Context::Deflate($c) => $e,
            Context::Zlib($c) => $e,
            Context::Bzip2($c) => $e,
            Context::Lzx($c) => $e,
        }
    };
}

impl Context {
    fn new(codec: Codec) -> Context {
        match codec {
            Codec::Adc => Context::Adc(AdcContext::new()),
            Codec::Lznt1 => Context::Lznt1(Lznt1Context::new()),
            Codec::Lzvn => Context::Lzvn(LzvnContext::new()),
            Codec::Lzfse => Context::Lzfse(LzfseContext::new()),
            Codec::Deflate => Context::Deflate(DeflateContext::new()),
            Codec::Zlib => Context::Zlib(ZlibContext::new()),
            Codec::Bzip2 => Context::Bzip2(Bzip2Context::new()),
            Codec::Lzx => Context::Lzx(LzxContext::new()),
        }
    }

    /// Size of the result, the error, or the panic.
    fn decompress(&mut self, data: &[u8], output: &mut [u8]) -> Result<Result<usize, String>, String> {
        no_panic(|| each!(self, c => match c.decompress(data, output) {
            Ok(()) => Ok(c.uncompressed_data_size),
            Err(e) => Err(e.to_string()),
        }))
    }
}

fn stream(codec: Codec, g: &mut Gen) -> Stream {
    match codec {
        Codec::Adc => lz::adc(g),
        Codec::Lznt1 => lz::lznt1(g),
        Codec::Lzvn => lz::lzvn(g),
        Codec::Lzfse => lzfse::lzfse(g),
        Codec::Deflate => deflate::deflate(g),
        Codec::Zlib => deflate::zlib(g),
        Codec::Bzip2 => bzip2::bzip2(g),
        Codec::Lzx => lzx::lzx(g),
    }
}

fn difference(got: &[u8], want: &[u8]) -> String {
    let at = got.iter().zip(want).position(|(a, b)| a != b);
    match at {
        Some(i) => format!(
            "byte {} of {} is {:#04x}, expected {:#04x}",
            i,
            want.len(),
            got[i],
            want[i]
        ),
        None => format!("{} bytes, expected {}", got.len(), want.len()),
    }
}

/// Decodes streams, one after the other with one context.
fn conforming(codec: Codec, g: &mut Gen) -> CaseResult {
    let mut context = Context::new(codec);
    let calls = if g.chance(1, 6) { 2 } else { 1 };
    for call in 0..calls {
        let s = stream(codec, g);
        if s.expected.is_empty() && codec == Codec::Lzx {
            return discard();
        }
        let mut data = s.encoded.clone();
        if s.terminated && g.chance(1, 5) {
            // What follows the end of the stream, such as the padding of a sector.
            let n = g.usize(1, 24);
            let tail = g.blob(n);
            data.extend_from_slice(&tail);
            g.class("data after the end of the stream");
        }
        let room = if g.chance(1, 4) {
            g.class("buffer larger than the result");
            g.usize(1, 64)
        } else {
            0
        };
        let mut output = buffer(g, s.expected.len() + room);
        g.note(|| format!("{:?}: {} to {} bytes, {} matches, {}", codec, s.encoded.len(), s.expected.len(), s.matches, hex(&s.encoded[..s.encoded.len().min(40)])));
        g.class_if(s.overlap, "match overlapping its result");
        g.class_if(call > 0, "context used again");
        if s.encoded.len() > 8 && (s.matches > 0 || codec == Codec::Bzip2) {
            g.nontrivial();
        }
        match context.decompress(&data, &mut output) {
            Err(panic) => return fail(format!("{:?}, {} bytes, {} expected: {}", codec, data.len(), s.expected.len(), panic)),
            Ok(Err(e)) => return fail(format!("{:?}: a valid stream of {} bytes for {} bytes in a buffer of {} is rejected: {}", codec, data.len(), s.expected.len(), output.len(), e)),
            Ok(Ok(size)) => {
                // Blocks may be empty at the end of an exactly full buffer, nothing else is open.
                check_eq!(size, s.expected.len(), "{:?}: size of the result", codec);
                check!(output[..size] == s.expected[..], "{:?}: {}", codec, difference(&output[..size], &s.expected));
            }
        }
    }
    Ok(())
}

/// Changes a stream in a few places.
fn damage(g: &mut Gen, data: &mut Vec<u8>) {
    let n = g.usize(1, 4);
    for _ in 0..n {
        if data.is_empty() {
            return;
        }
        // Headers matter most.
        let at = if g.bool() { g.usize(0, data.len() - 1) } else { g.usize(0, data.len().min(64) - 1) };
        match g.below_or(6) {
            0 => data[at] ^= 1 << g.below_or(7),
            1 => data[at] = *g.pick(&[0u8, 0xff, 0x7f, 0x80]),
            2 => data[at] = g.u8(),
            3 => {
                data.truncate(at);
                g.class("cut off");
            }
            4 => {
                let m = g.usize(1, (data.len() - at).min(9));
                data.drain(at..at + m);
            }
            5 => {
                let m = g.usize(1, 9);
                let extra = g.bytes(m);
                data.splice(at..at, extra);
            }
            _ => {
                let m = g.usize(1, (data.len() - at).min(16));
                let copy = data[at..at + m].to_vec();
                let to = g.usize(0, data.len());
                data.splice(to..to, copy);
            }
        }
    }
}

/// Starts of streams for data that is random after that.
fn prefix(codec: Codec, g: &mut Gen) -> Vec<u8> {
    match codec {
        Codec::Zlib => vec![0x78, *g.pick(&[0x9cu8, 0x01, 0xda])],
        Codec::Bzip2 => {
            let mut v = b"BZh".to_vec();
            v.push(b'1' + g.usize(0, 8) as u8);
            v.extend_from_slice(&[0x31, 0x41, 0x59, 0x26, 0x53, 0x59]);
            v
        }
        Codec::Lzfse => {
            let mut v = g.pick(&[&b"bvx1"[..], b"bvx2", b"bvxn", b"bvx-"]).to_vec();
            let n = g.usize(0, 300) as u32;
            v.extend_from_slice(&n.to_le_bytes());
            v
        }
        _ => Vec::new(),
    }
}

/// Any bytes: an error or a result, and the same for any contents of the buffer before.
fn arbitrary(codec: Codec, g: &mut Gen) -> CaseResult {
    let mut size;
    let mut data;
    let kind = g.weighted(&[5, 2]);
    if kind == 0 {
        let s = stream(codec, g);
        data = s.encoded;
        size = s.expected.len();
        damage(g, &mut data);
        g.class("damaged stream");
    } else {
        data = prefix(codec, g);
        let n = g.length(900, 64);
        let rest = g.blob(n);
        data.extend_from_slice(&rest);
        size = g.length(3000, 256);
        g.class("random data");
    }
    if g.chance(1, 3) {
        size = match g.below_or(3) {
            0 => size / 2,
            1 => size.saturating_sub(1),
            2 => size + 100,
            _ => g.usize(0, 70000),
        };
        g.class("other buffer size");
    }
    if data.len() > 4 && size > 0 {
        g.nontrivial();
    }
    g.note(|| format!("{:?}: {} bytes into {}: {}", codec, data.len(), size, hex(&data[..data.len().min(40)])));
    let mut first = vec![0u8; size];
    let a = match Context::new(codec).decompress(&data, &mut first) {
        Err(panic) => return fail(format!("{:?} of {} bytes into {}: {}; data {}", codec, data.len(), size, panic, hex(&data))),
        Ok(r) => r,
    };
    let mut second = vec![0xa5u8; size];
    let b = match Context::new(codec).decompress(&data, &mut second) {
        Err(panic) => return fail(format!("{:?} of {} bytes into {}: {}", codec, data.len(), size, panic)),
        Ok(r) => r,
    };
    check!(a.is_ok() == b.is_ok(), "{:?}: the contents of the buffer before the call decide whether {} is an error", codec, hex(&data));
    if let (Ok(m), Ok(n)) = (a, b) {
        g.class("accepted");
        check!(m == n && m <= size, "{:?}: sizes {} and {} in a buffer of {}", codec, m, n, size);
        check!(first[..m] == second[..n], "{:?}: the result depends on the contents of the buffer before the call: {}; data {}", codec, difference(&first[..m], &second[..n]), hex(&data));
    }
    Ok(())
}

/// Data that does not match its checksum is not passed on.
fn checksummed(codec: Codec, g: &mut Gen) -> CaseResult {
    let s = stream(codec, g);
    if s.expected.is_empty() {
        return discard();
    }
    let mut data = s.encoded.clone();
    let at = g.usize(0, data.len() - 1);
    let bit = g.usize(0, 7);
    data[at] ^= 1 << bit;
    let mut output = buffer(g, s.expected.len());
    g.nontrivial();
    g.class_if(at + 4 >= data.len(), "checksum damaged");
    g.note(|| format!("{:?}: {} bytes for {}, bit {} of byte {} inverted", codec, data.len(), s.expected.len(), bit, at));
    match context_free(codec, &data, &mut output) {
        Err(panic) => fail(format!("{:?}: {}", codec, panic)),
        Ok(Err(_)) => {
            g.class("rejected");
            Ok(())
        }
        Ok(Ok(size)) => {
            // Other data may have the checksum that is stored: Adler-32 tells few permutations of bytes apart.
            let sum = deflate::adler(&output[..size]).to_be_bytes();
            let collides = codec == Codec::Zlib && data.windows(4).any(|w| w == sum);
            g.class_if(collides && output[..size] != s.expected[..], "other data with the same checksum");
            check!(
                collides || output[..size] == s.expected[..],
                "{:?}: {} bytes with bit {} of byte {} inverted are accepted with another result: {}",
                codec,
                data.len(),
                bit,
                at,
                difference(&output[..size], &s.expected)
            );
            if codec == Codec::Zlib {
                check!(at + 4 < data.len(), "{:?}: a damaged checksum is accepted", codec);
            }
            Ok(())
        }
    }
}

/// A stream that is cut off is not passed on as complete.
fn cut_off(codec: Codec, g: &mut Gen) -> CaseResult {
    let s = stream(codec, g);
    if s.expected.is_empty() {
        return discard();
    }
    let n = if g.bool() { g.usize(0, s.encoded.len() - 1) } else { s.encoded.len() - g.usize(1, s.encoded.len().min(40)) };
    let mut output = buffer(g, s.expected.len());
    g.nontrivial();
    g.note(|| format!("{:?}: {} of {} bytes", codec, n, s.encoded.len()));
    match context_free(codec, &s.encoded[..n], &mut output) {
        Err(panic) => fail(format!("{:?}: {}", codec, panic)),
        Ok(Err(_)) => Ok(()),
        // Bits of the checksum at the very end may be 0 as well as missing.
        Ok(Ok(size)) if output[..size] == s.expected[..] => Ok(()),
        Ok(Ok(size)) => fail(format!("{:?}: the first {} of {} bytes are accepted, with {} of {} bytes", codec, n, s.encoded.len(), size, s.expected.len())),
    }
}

fn context_free(codec: Codec, data: &[u8], output: &mut [u8]) -> Result<Result<usize, String>, String> {
    Context::new(codec).decompress(data, output)
}

macro_rules! codec_facets {
    ($($codec:ident, $stream:ident, $any:ident;)*) => {
        $(
            fn $stream(g: &mut Gen) -> CaseResult {
                conforming(Codec::$codec, g)
            }
            fn $any(g: &mut Gen) -> CaseResult {
                arbitrary(Codec::$codec, g)
            }
        )*
    };
}

codec_facets! {
    Adc, adc_streams, adc_any;
    Lznt1, lznt1_streams, lznt1_any;
    Lzvn, lzvn_streams, lzvn_any;
    Lzfse, lzfse_streams, lzfse_any;
    Deflate, deflate_streams, deflate_any;
    Zlib, zlib_streams, zlib_any;
    Bzip2, bzip2_streams, bzip2_any;
    Lzx, lzx_streams, lzx_any;
}

fn zlib_checksum(g: &mut Gen) -> CaseResult {
    checksummed(Codec::Zlib, g)
}

fn bzip2_checksum(g: &mut Gen) -> CaseResult {
    checksummed(Codec::Bzip2, g)
}

fn deflate_cut_off(g: &mut Gen) -> CaseResult {
    cut_off(*g.pick(&[Codec::Deflate, Codec::Zlib]), g)
}

/// Codes of which the sizes are over-subscribed are ambiguous: no data has them.
fn crowded(g: &mut Gen) -> CaseResult {
    let data = deflate::crowded(g);
    let mut output = buffer(g, 70000);
    g.nontrivial();
    g.note(|| format!("{} bytes: {}", data.len(), pbt::hex(&data)));
    match context_free(Codec::Deflate, &data, &mut output) {
        Err(panic) => fail(format!("over-subscribed codes: {}", panic)),
        Ok(Err(_)) => Ok(()),
        Ok(Ok(size)) => fail(format!("over-subscribed codes are accepted, with {} bytes", size)),
    }
}

fn bzip2_cut_off(g: &mut Gen) -> CaseResult {
    cut_off(Codec::Bzip2, g)
}

/// After a failed call a context works as before.
fn after_error(g: &mut Gen) -> CaseResult {
    let codec = *g.pick(&CODECS);
    let mut context = Context::new(codec);
    let broken = stream(codec, g);
    let mut data = broken.encoded;
    damage(g, &mut data);
    let mut output = vec![0u8; broken.expected.len()];
    match context.decompress(&data, &mut output) {
        Err(panic) => return fail(format!("{:?}: {}", codec, panic)),
        Ok(r) => g.class_if(r.is_err(), "error before"),
    }
    let s = stream(codec, g);
    if s.expected.is_empty() {
        return discard();
    }
    g.nontrivial();
    g.note(|| format!("{:?}: {} damaged bytes, then {} to {} bytes", codec, data.len(), s.encoded.len(), s.expected.len()));
    let mut output = buffer(g, s.expected.len());
    match context.decompress(&s.encoded, &mut output) {
        Err(panic) => fail(format!("{:?} after an earlier call: {}", codec, panic)),
        Ok(Err(e)) => fail(format!("{:?} after an earlier call: {}", codec, e)),
        Ok(Ok(size)) => {
            check!(output[..size] == s.expected[..], "{:?} after an earlier call: {}", codec, difference(&output[..size], &s.expected));
            Ok(())
        }
    }
}

const RULE: &str = "a stream of more than 8 bytes with at least one match";

static C30: Property = Property {
    id: "C30",
    rule: RULE,
    assumptions: &[],
    facets: &[Facet { name: "streams", work: Work::Random(4000, 40000), case: adc_streams }],
};

static C31: Property = Property {
    id: "C31",
    rule: RULE,
    assumptions: &[],
    facets: &[Facet { name: "streams", work: Work::Random(3000, 30000), case: lznt1_streams }],
};

static C32: Property = Property {
    id: "C32",
    rule: RULE,
    assumptions: &[],
    facets: &[Facet { name: "streams", work: Work::Random(4000, 40000), case: lzvn_streams }],
};

static C33: Property = Property {
    id: "C33",
    rule: RULE,
    assumptions: &[],
    facets: &[Facet { name: "streams", work: Work::Random(1500, 15000), case: lzfse_streams }],
};

static C34: Property = Property {
    id: "C34",
    rule: RULE,
    assumptions: &["streams with a preset dictionary are left out: there is no way to pass one"],
    facets: &[
        Facet { name: "deflate", work: Work::Random(2500, 25000), case: deflate_streams },
        Facet { name: "zlib", work: Work::Random(1000, 10000), case: zlib_streams },
        Facet { name: "zlib_checksum", work: Work::Random(1000, 10000), case: zlib_checksum },
        Facet { name: "cut_off", work: Work::Random(1000, 10000), case: deflate_cut_off },
        Facet { name: "over_subscribed", work: Work::Random(1000, 10000), case: crowded },
    ],
};

static C35: Property = Property {
    id: "C35",
    rule: "a stream with at least one block",
    assumptions: &["blocks with the obsolete randomized flag are left out"],
    facets: &[
        Facet { name: "streams", work: Work::Random(600, 6000), case: bzip2_streams },
        Facet { name: "checksum", work: Work::Random(400, 4000), case: bzip2_checksum },
        Facet { name: "cut_off", work: Work::Random(200, 2000), case: bzip2_cut_off },
    ],
};

static C36: Property = Property {
    id: "C36",
    rule: RULE,
    assumptions: &["chunks of up to 32768 bytes, the window size of WIM"],
    facets: &[Facet { name: "streams", work: Work::Random(1500, 15000), case: lzx_streams }],
};

static C38: Property = Property {
    id: "C38",
    rule: "more than 4 bytes of input and a buffer that is not empty",
    assumptions: &[],
    facets: &[
        Facet { name: "adc", work: Work::Random(3000, 30000), case: adc_any },
        Facet { name: "lznt1", work: Work::Random(3000, 30000), case: lznt1_any },
        Facet { name: "lzvn", work: Work::Random(3000, 30000), case: lzvn_any },
        Facet { name: "lzfse", work: Work::Random(2000, 20000), case: lzfse_any },
        Facet { name: "deflate", work: Work::Random(3000, 30000), case: deflate_any },
        Facet { name: "zlib", work: Work::Random(1000, 10000), case: zlib_any },
        Facet { name: "bzip2", work: Work::Random(600, 6000), case: bzip2_any },
        Facet { name: "lzx", work: Work::Random(2000, 20000), case: lzx_any },
        Facet { name: "after_error", work: Work::Random(1000, 10000), case: after_error },
    ],
};

/// Runs a case with debug output, which the engine discards.
fn debugged(g: &mut Gen, case: fn(&mut Gen) -> CaseResult) -> CaseResult {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            keramics_core::mediator::Mediator::new(false).make_current();
        }
    }
    let _off = Off;
    keramics_core::mediator::Mediator::new(true).make_current();
    case(g)
}

static C39: Property = Property {
    id: "C39",
    rule: "As in the property the facet is of, with debug output.",
    assumptions: &[],
    facets: &[
        Facet { name: "adc", work: Work::Random(100, 1000), case: |g| debugged(g, C30.facets[0].case) },
        Facet { name: "lznt1", work: Work::Random(100, 1000), case: |g| debugged(g, C31.facets[0].case) },
        Facet { name: "lzvn", work: Work::Random(100, 1000), case: |g| debugged(g, C32.facets[0].case) },
        Facet { name: "lzfse", work: Work::Random(40, 1000), case: |g| debugged(g, C33.facets[0].case) },
        Facet { name: "deflate", work: Work::Random(100, 1000), case: |g| debugged(g, C34.facets[0].case) },
        Facet { name: "zlib", work: Work::Random(100, 1000), case: |g| debugged(g, C34.facets[1].case) },
        Facet { name: "zlib checksum", work: Work::Random(100, 1000), case: |g| debugged(g, C34.facets[2].case) },
        Facet { name: "deflate cut off", work: Work::Random(100, 1000), case: |g| debugged(g, C34.facets[3].case) },
        Facet { name: "bzip2", work: Work::Random(40, 1000), case: |g| debugged(g, C35.facets[0].case) },
        Facet { name: "bzip2 checksum", work: Work::Random(40, 1000), case: |g| debugged(g, C35.facets[1].case) },
        Facet { name: "bzip2 cut off", work: Work::Random(40, 1000), case: |g| debugged(g, C35.facets[2].case) },
        Facet { name: "lzx", work: Work::Random(40, 1000), case: |g| debugged(g, C36.facets[0].case) },
        Facet { name: "adc any", work: Work::Random(100, 1000), case: |g| debugged(g, C38.facets[0].case) },
        Facet { name: "lznt1 any", work: Work::Random(100, 1000), case: |g| debugged(g, C38.facets[1].case) },
        Facet { name: "lzvn any", work: Work::Random(100, 1000), case: |g| debugged(g, C38.facets[2].case) },
        Facet { name: "lzfse any", work: Work::Random(40, 1000), case: |g| debugged(g, C38.facets[3].case) },
        Facet { name: "deflate any", work: Work::Random(100, 1000), case: |g| debugged(g, C38.facets[4].case) },
        Facet { name: "zlib any", work: Work::Random(100, 1000), case: |g| debugged(g, C38.facets[5].case) },
        Facet { name: "bzip2 any", work: Work::Random(40, 1000), case: |g| debugged(g, C38.facets[6].case) },
        Facet { name: "lzx any", work: Work::Random(40, 1000), case: |g| debugged(g, C38.facets[7].case) },
    ],
};

fn main() {
    pbt::main(&[&C30, &C31, &C32, &C33, &C34, &C35, &C36, &C38, &C39]);
}
