#!/usr/bin/env python3
"""Regenerates harness-layout/src/layout_catalogue.rs: structures that derive LayoutMap, and the
description of each that the independent reader of layout.rs interprets. Fixed seed."""
import os, random
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, '..', 'harness-layout', 'src', 'layout_catalogue.rs')
R = random.Random(20250807)
BE = ['big', 'be', 'BigEndian']
LE = ['little', 'le', 'LittleEndian']
INTS = {}
for bits in (8, 16, 32, 64):
    INTS[('u', bits)] = ['u%d' % bits, 'uint%d' % bits, 'UnsignedInteger%dBit' % bits]
    INTS[('i', bits)] = ['i%d' % bits, 'int%d' % bits, 'SignedInteger%dBit' % bits]
TIMES = {'FatDate': 2, 'FatTimeDate': 4, 'FatTimeDate10Ms': 5, 'Filetime': 8, 'PosixTime32': 4, 'Uuid': 16}
structs = []  # (name, size, has_groups)
out_structs, out_desc, out_vt = [], [], []

def modifier(bits, signed):
    top = bits - 1 if signed else bits
    kind = R.choice(['&', '|', '^', '>>', '<<', '%', '/', '/+'])
    if kind in '&|^':
        v = R.randrange(1, 1 << top)
        return '%s %s' % (kind, hex(v) if R.random() < .7 else v), [(kind, v)]
    if kind in ('>>', '<<'):
        v = R.randrange(1, bits)
        return '%s %d' % (kind, v), [(kind, v)]
    v = R.randrange(2, min(1 << top, 1000) - 1) if top > 2 else 2
    if kind == '/+':
        a = R.randrange(1, 1 << max(1, top - 2))
        v = max(v, 2)
        return '/ %d + %d' % (v, a), [('/', v), ('+', a)]
    return '%s %d' % (kind, v), [(kind, v)]

def order_attr(own):
    return '' if own is None else ', byte_order = "%s"' % R.choice(BE if own else LE)

def rust_field(name, kind, be, fmt, mods, count, bits, cond):
    m = ', '.join("('%s', %d)" % (op if op not in ('>>', '<<') else ('>' if op == '>>' else '<'), v) for op, v in mods)
    c = 'None' if cond is None else 'Some((%s, %d))' % cond
    n = 'None' if count is None else 'Some(%d)' % count
    return 'F { name: "%s", kind: %s, be: %s, format: Format::%s, modifiers: &[%s], count: %s, bits: %d, condition: %s, offset: @OFF@ }' % (
        name, kind, 'true' if be else 'false', fmt, m, n, bits, c)

def one_member(i, sorder, allow_seq, cond, theme):
    """Returns (attribute text, descriptor, size)."""
    name = '%s%d' % (R.choice(['field', 'value', 'x', 'number_of_', 'type_']), i)
    own = R.choice([None, None, None, True, False])
    what = theme if theme and R.random() < .75 else R.choice(['int'] * 6 + ['time'] * 3 + (['seq'] * 3 + ['str'] * 2 if allow_seq else []) + (['struct'] if structs else []) + (['structs'] if structs and allow_seq else []))
    if what == 'seq' and not allow_seq: what = 'int'
    if what in ('int', 'seq'):
        sign, bits = R.choice(list(INTS))
        if what == 'seq' and R.random() < .3: sign, bits = 'u', 8
        if sorder is None and bits > 8 and own is None: own = R.choice([True, False])
        be = own if own is not None else sorder
        t = R.choice(INTS[(sign, bits)])
        fmt, fa = 'Plain', ''
        r = R.random()
        if r < .4: fmt, fa = 'Hex', ', format = "%s"' % R.choice(['hex', 'Hexadecimal'])
        elif r < .6 and (sign, bits) == ('u', 8): fmt, fa = 'Char', ', format = "%s"' % R.choice(['char', 'Character'])
        kind = 'Kind::Int { size: %d, signed: %s }' % (bits // 8, 'true' if sign == 'i' else 'false')
        size = bits // 8
        if what == 'seq':
            if R.random() < .3 and fmt == 'Plain':
                k = R.choice(list(TIMES))
                if sorder is None and own is None: own = R.choice([True, False])
                be = own if own is not None else sorder
                t, kind, size = k, 'Kind::' + k, TIMES[k]
            count = R.choice([2, 3, 4, 5, 7, 8, 15, 16, 17, 18, 31, 32, 33, 48, 50]) if size <= 8 else R.choice([2, 3, 5, 17])
            if R.random() < .04: count = 0
            sp = R.choice(['; ', ';', ' ; '])
            return ('field(name = "%s", data_type = "[%s%s%d]"%s%s)' % (name, t, sp, count, order_attr(own), fa),
                    rust_field(name, kind, be, fmt, [], count, 0, cond), size * count)
        mods, ma = [], ''
        if R.random() < .45 and fmt != 'Char' or (fmt == 'Char' and R.random() < .2):
            text, mods = modifier(bits, sign == 'i')
            ma = ', modifier = "%s"' % text
        if R.random() < .06:
            t = '[%s; 1]' % t
        return ('field(name = "%s", data_type = "%s"%s%s%s)' % (name, t, order_attr(own), fa, ma),
                rust_field(name, kind, be, fmt, mods, None, 0, cond), size)
    if what == 'time':
        k = R.choice(list(TIMES))
        if sorder is None and own is None: own = R.choice([True, False])
        be = own if own is not None else sorder
        t = R.choice(['uuid', 'Uuid']) if k == 'Uuid' else k
        return ('field(name = "%s", data_type = "%s"%s)' % (name, t, order_attr(own)),
                rust_field(name, 'Kind::' + k, be, 'Plain', [], None, 0, cond), TIMES[k])
    if what == 'str':
        k = R.choice(['ByteString', 'Ucs2String', 'Utf16String'])
        if sorder is None and own is None: own = R.choice([True, False])
        be = own if own is not None else sorder
        n = R.choice([1, 2, 3, 4, 8, 11, 16, 32])
        return ('field(name = "%s", data_type = "%s<%d>"%s)' % (name, k, n, order_attr(own)),
                rust_field(name, 'Kind::%s(%d)' % (k, n), be, 'Plain', [], None, 0, cond), n * (1 if k == 'ByteString' else 2))
    if sorder is None: own = True if own is None else own
    idx = R.randrange(len(structs))
    sname, ssize, ok = structs[idx]
    if not ok or ssize > 200:
        return one_member(i, sorder, allow_seq, cond, 'int')
    sp = R.choice(['; ', ';'])
    if what == 'struct':
        return ('field(name = "%s", data_type = "Struct<%s%s%d>"%s)' % (name, sname, sp, ssize, order_attr(own)),
                rust_field(name, 'Kind::Struct(%d, %d)' % (idx, ssize), False, 'Plain', [], None, 0, cond), ssize)
    count = R.choice([2, 3, 5])
    return ('field(name = "%s", data_type = "[Struct<%s%s%d>; %d]"%s)' % (name, sname, sp, ssize, count, order_attr(own)),
            rust_field(name, 'Kind::Struct(%d, %d)' % (idx, ssize), False, 'Plain', [], count, 0, cond), ssize * count)

def bitfields(i, sorder):
    width = R.choice([8, 16, 32, 64])
    own = R.choice([None, None, True, False])
    if sorder is None and own is None: own = R.choice([True, False])
    be = own if own is not None else sorder
    parts, left = [], width
    while left:
        n = min(left, R.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 17, 23, 31, 40]))
        if n == 64: n = 63
        parts.append(n)
        left -= n
    texts, descs = [], []
    off = 0
    for j, n in enumerate(parts):
        name = 'bits%d_%d' % (i, j)
        fmt, fa = ('Hex', ', format = "hex"') if R.random() < .4 else ('Plain', '')
        mods, ma = [], ''
        if R.random() < .35:
            text, mods = modifier(width, False)
            ma = ', modifier = "%s"' % text
        texts.append('field(name = "%s", data_type = "BitField%d<%d>"%s%s%s)' % (name, width, n, order_attr(own) if j == 0 else '', fa, ma))
        descs.append(rust_field(name, 'Kind::Bits { size: %d, shift: %d }' % (width // 8, off), be, fmt, mods, None, n, None))
        off += n
    return texts, descs, width // 8

for s in range(110):
    name = 'Layout%03d' % s
    sorder = R.choice([None, True, True, False, False])
    style = R.choice(['fields', 'fields', 'fields', 'members', 'groups'])
    theme = R.choice([None, None, None, 'int', 'time', 'seq', 'str'])
    if style != 'fields' and theme == 'seq': theme = None
    texts, descs, offset, i = [], [], 0, 0
    for _ in range(R.choice([1, 2, 3, 4, 6, 9])):
        if style == 'fields' and R.random() < .25:
            t, d, size = bitfields(i, sorder)
            texts += t
            descs += [x.replace('@OFF@', str(offset)) for x in d]
            offset += size
        elif style == 'groups' and R.random() < .5:
            k = R.choice([1, 2, 3])
            items = []
            for _ in range(k):
                items.append(one_member(i, sorder, False, ('@', 0), None))
                i += 1
            gsize = sum(x[2] for x in items)
            form = R.choice(['>', '>=', '>o', '!=', '=='])
            if form == '>': cond, text = ("Condition::Greater", offset + gsize - 1), '> %d' % (offset + gsize - 1)
            elif form == '>o': cond, text = ("Condition::Greater", offset), '> %d' % offset
            elif form == '>=': cond, text = ("Condition::AtLeast", offset + gsize), '>= %d' % (offset + gsize)
            elif form == '!=': cond, text = ("Condition::Differs", offset), '!= %d' % offset
            else: cond, text = ("Condition::Equal", offset + gsize), '== %d' % (offset + gsize)
            for x in items:
                descs.append(x[1].replace('Some((@, 0))', 'Some(%s(%d))' % cond).replace('@OFF@', str(offset)))
                offset += x[2]
            texts.append('member(group(size_condition = "%s", %s))' % (text, ', '.join(x[0] for x in items)))
        else:
            t, d, size = one_member(i, sorder, True, None, theme)
            texts.append(t if style == 'fields' else 'member(%s)' % t)
            descs.append(d.replace('@OFF@', str(offset)))
            offset += size
        i += 1
    groups = any('Condition::' in d for d in descs)
    order = '' if sorder is None else 'byte_order = "%s", ' % R.choice(BE if sorder else LE)
    methods = ['method(name = "debug_read_data")', 'method(name = "read_at_position")']
    R.shuffle(methods)
    parts = ['structure(\n        %s%s\n    )' % (order, ',\n        '.join(texts))] + methods
    out_structs.append('''#[derive(Default, LayoutMap)]
#[layout_map(
    %s
)]
pub struct %s {
    pub data: Vec<u8>,
}
reader!(%s);
''' % (',\n    '.join(parts), name, name))
    out_desc.append('    S {\n        name: "%s",\n        size: %d,\n        debug: structs::%s::debug_read_data,\n        read: structs::read_%s,\n        fields: &[\n            %s,\n        ],\n    },' % (
        name, offset, name, name.lower(), ',\n            '.join(descs)))
    structs.append((name, offset, not groups and offset > 0))
text = '''// Generated by tools/gen_layout_catalogue.py.
use super::{Condition, Format, Kind, F, S};

#[allow(unused_variables, unused_parens, non_snake_case)]
mod structs {
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_layout_map::LayoutMap;
use std::io::SeekFrom;

macro_rules! reader {
    ($name:ident) => {
        impl $name {
            fn read_data(&mut self, data: &[u8]) -> Result<(), ErrorTrace> {
                self.data = data.to_vec();
                super::super::outcome_of(data)
            }
        }
    };
}

''' + '\n'.join(out_structs) + '\n' + '\n'.join('''pub fn read_%s(data_stream: &DataStreamReference, position: SeekFrom) -> Result<Vec<u8>, ErrorTrace> {
    let mut layout = %s::default();
    layout.read_at_position(data_stream, position)?;
    Ok(layout.data)
}''' % (n.lower(), n) for n, _, _ in structs) + '''
}

pub static CATALOGUE: &[S] = &[
''' + '\n'.join(out_desc) + '\n];\n'
open(OUT, 'w').write(text)
