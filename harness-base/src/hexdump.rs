//! The reference hexdump.

/// The hexdump format: offset, 16 values in two groups of 8, printable ASCII, and an empty line at
/// the end. In group mode full lines that repeat the previous line are shown as one "..." line,
/// except for the last full line.
pub fn model_hexdump(data: &[u8], group: bool) -> String {
    let mut out = String::new();
    let full = data.len() / 16;
    let mut shown: Option<usize> = None;
    let mut elided = false;
    for (i, chunk) in data.chunks(16).enumerate() {
        if group && chunk.len() == 16 && i + 1 < full {
            if let Some(s) = shown {
                if data[s * 16..s * 16 + 16] == *chunk {
                    if !elided {
                        out.push_str("...\n");
                        elided = true;
                    }
                    continue;
                }
            }
        }
        if chunk.len() == 16 {
            shown = Some(i);
        }
        elided = false;
        out.push_str(&format!("{:08x}  ", i * 16));
        for k in 0..16 {
            match chunk.get(k) {
                Some(b) => out.push_str(&format!("{:02x} ", b)),
                None => out.push_str("   "),
            }
            if k == 7 {
                out.push(' ');
            }
        }
        out.push(' ');
        for b in chunk {
            out.push(if (0x20..0x7f).contains(b) { *b as char } else { '.' });
        }
        out.push('\n');
    }
    out.push('\n');
    out
}
