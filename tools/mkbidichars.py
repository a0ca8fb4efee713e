#!/usr/bin/env python3
"""mkbidichars.py: writes harness/data/bidichars.json, the properties of some characters,
from the Unicode files and the unicodedata module (once; the result is committed)."""
import unicodedata, json, random
base = '/repo/fribidi/unidata/'
def rows(name):
    for l in open(base + name):
        l = l.split('#')[0].strip()
        if l: yield [x.strip() for x in l.split(';')]
mir = {int(a, 16): int(b, 16) for a, b in rows('BidiMirroring.txt')}
br = {int(a, 16): (int(b, 16), t) for a, b, t in rows('BidiBrackets.txt')}
jt = {int(f[0], 16): f[2] for f in rows('ArabicShaping.txt')}
cat = {int(f[0], 16): f[2] for f in rows('UnicodeData.txt')}
forms = {}
for ch in range(0xFB50, 0xFF00):
    d = unicodedata.decomposition(chr(ch)).split()
    tags = ['<isolated>', '<final>', '<initial>', '<medial>']
    if len(d) == 2 and d[0] in tags:
        u = int(d[1], 16)
        forms.setdefault(u, [u] * 4)[tags.index(d[0])] = ch
names = dict(R='R', AL='AL', B='B', S='S')
r = random.Random(3)
chars = set(mir) | set(br) | set(forms) | {c for c in jt if c < 0x780}
chars |= {c for f in forms.values() for c in f}
chars |= {c for c in range(0x600, 0x700) if c in cat}
chars |= set(range(32, 127)) | set(range(0x5D0, 0x5D6)) | {0xA872, 0xA840, 0xA86B, 0x10AC0, 0x10AD3, 0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x061C, 0xFEFF, 0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069, 0xAD, 9, 11, 13, 10, 0x2028, 0x2029, 0x85}
by = {}
for c in cat:
    by.setdefault(unicodedata.bidirectional(chr(c)), []).append(c)
for k, l in by.items():
    chars |= set(r.sample(l, min(12, len(l))))
chars |= set(r.sample(sorted(jt), 100))
out = {}
for c in sorted(chars):
    if c not in cat or 0xD800 <= c < 0xE000: continue
    t = unicodedata.bidirectional(chr(c))
    if not t: continue
    b = 0
    if c in br and t == 'ON':
        pair, oc = br[c]
        o = c if oc == 'o' else pair
        i = ord(unicodedata.normalize('NFD', chr(o)))
        b = i if oc == 'o' else -i
    if c in jt: j = jt[c]
    elif cat[c] in ('Mn', 'Me', 'Cf'): j = 'T'
    elif t in ('BN', 'LRE', 'RLE', 'LRO', 'RLO', 'PDF', 'LRI', 'RLI', 'FSI', 'PDI'): j = 'G'
    else: j = 'U'
    out[c] = dict(t=t, b=b, j=j, m=mir.get(c, c), f=forms.get(c, [c] * 4))
json.dump(out, open('/verif/harness/data/bidichars.json', 'w'), separators=(',', ':'), sort_keys=True)
print(len(out))
