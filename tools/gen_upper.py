#!/usr/bin/env python3
"""Writes harness/src/upper.rs, the oracle for C15 and C16: the simple upper-case mapping of the Basic Multilingual Plane, from
Python's copy of the Unicode character database (not from the library). Mappings added after Unicode 13, the version the library
follows, are left out."""
import unicodedata, os
LATER = {0x2c5f, 0xa7c1, 0xa7d1, 0xa7d7, 0xa7d9}
o = []
for c in range(0x10000):
    if 0xd800 <= c < 0xe000 or c in LATER: continue
    # the simple mapping: where the full one is longer, the simple upper case is the title case letter (Greek iota subscript)
    for u in (chr(c).upper(), chr(c).title()):
        if len(u) == 1:
            if ord(u) != c and ord(u) < 0x10000: o.append((c, ord(u)))
            break
s = '//! Generated by tools/gen_upper.py.\npub static UPPER: &[(u16, u16)] = &[\n'
for i in range(0, len(o), 8): s += '    ' + ' '.join(f'({a:#06x}, {b:#06x}),' for a, b in o[i:i + 8]) + '\n'
s += '];\n'
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/src/upper.rs'), 'w').write(s)
print(len(o))
