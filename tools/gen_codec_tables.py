#!/usr/bin/env python3
"""Regenerates harness-base/data/codecs.txt and cp932.txt from the codecs of Python, an
implementation independent of keramics. MacCeltic, MacGaelic and MacDingbats have no Python codec:
their rows are recorded (golden) and are copied over from the existing file or from a dump."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, '..', 'harness-base', 'data')
NAMES = {'Ascii': 'ascii', 'Koi8R': 'koi8_r', 'Koi8U': 'koi8_u', 'MacArabic': 'mac_arabic',
         'MacCentralEurRoman': 'mac_latin2', 'MacCroatian': 'mac_croatian',
         'MacCyrillic': 'mac_cyrillic', 'MacFarsi': 'mac_farsi', 'Windows874': 'cp874'}
for i in list(range(1, 12)) + [13, 14, 15, 16]:
    NAMES['Iso8859_%d' % i] = 'iso8859_%d' % i
for i in range(1250, 1259):
    NAMES['Windows%d' % i] = 'cp%d' % i
golden = {}
path = os.path.join(DATA, 'codecs.txt')
if len(sys.argv) > 1:
    for line in open(sys.argv[1]):
        f = line.split()
        if f[0] == 'D' and f[1] in ('MacCeltic', 'MacGaelic', 'MacDingbats'):
            golden.setdefault(f[1], [None] * 256)[int(f[2], 16)] = None if f[3] == '-' else int(f[3], 16)
else:
    for line in open(path):
        f = line.split()
        if f[0] in ('MacCeltic', 'MacGaelic', 'MacDingbats'):
            golden[f[0]] = [None if v == 'ffff' else int(v, 16) for v in f[1:]]
rows = []
for name, codec in sorted(NAMES.items()):
    row = []
    for b in range(256):
        try:
            row.append(ord(bytes([b]).decode(codec)))
        except UnicodeDecodeError:
            row.append(None)
    rows.append((name, row))
rows += sorted(golden.items())
with open(path, 'w') as out:
    for name, row in rows:
        out.write(name + ' ' + ' '.join('ffff' if v is None else '%04x' % v for v in row) + '\n')
with open(os.path.join(DATA, 'cp932.txt'), 'w') as out:
    for lead in range(256):
        for trail in range(256):
            if 0xf0 <= lead <= 0xf9:
                continue
            b = bytes([lead, trail])
            try:
                s = b.decode('cp932')
            except UnicodeDecodeError:
                continue
            if len(s) == 1:
                e = s.encode('cp932')
                out.write('%02x%02x %04x %d\n' % (lead, trail, ord(s), e == b))
