"""Makes harness/data/breakchars.json: representatives of every combination of the properties that
UAX #29 and UAX #14 use, from perl's tables (Unicode 15), kept where the Unicode 13 files of the
textlayout module agree. breakskip.json has characters whose class the code derives from the general
category in another way than Unicode does: their whole groups are left out (DESIGN.md says so).
Run by hand; the result is committed."""
import collections, json, os, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
UCD = '/root/go/pkg/mod/github.com/benoitkugler/textlayout@v0.3.1/unicodedata/generate/'
PERL = r'''use Unicode::UCD qw(prop_invmap);
for my $p (qw(Gc GCB WB SB Lb Ea ExtPict Emoji Sc Age InSC)) {
  my ($inv,$map)=prop_invmap($p);
  for my $i (0..$#$inv){ my $s=$inv->[$i]; my $e=$i<$#$inv?$inv->[$i+1]-1:0x10ffff; my $v=ref $map->[$i]?join(' ',@{$map->[$i]}):$map->[$i]; printf "%s\t%d\t%d\t%s\n",$p,$s,$e,$v; }
}'''
N = 0x110000
P = collections.defaultdict(lambda: [None]*N)
for l in subprocess.run(['perl', '-e', PERL], capture_output=True, text=True, check=True).stdout.splitlines():
    a = l.split('\t')
    P[a[0]][int(a[1]):int(a[2])+1] = [a[3]]*(int(a[2])-int(a[1])+1)
def load(f, col=1):
    d = {}
    for l in open(UCD+f):
        l = l.split('#')[0].strip()
        if not l: continue
        x = [y.strip() for y in l.split(';')]
        r = x[0].split('..')
        for i in range(int(r[0],16), int(r[-1],16)+1): d[i] = x[col]
    return d
gcb, sb, lb = load('GraphemeBreakProperty.txt'), load('SentenceBreakProperty.txt'), load('LineBreak.txt')
ud = {int(l.split(';')[0],16): l.split(';')[2] for l in open(UCD+'UnicodeData.txt')}
INDIC = {'Devanagari','Bengali','Gurmukhi','Gujarati','Oriya','Tamil','Telugu','Kannada','Malayalam'}
OWN = {'Han':'hani','Hangul':'hang','Hiragana':'hira','Katakana':'kana','Common':'zyyy','Inherited':'zinh','Hebrew':'hebr','Arabic':'arab','Sinhala':'sinh','Thai':'thai','Latin':'latn'}
WSEG = {0x20,0x1680,0x205f,0x3000} | (set(range(0x2000,0x200b)) - {0x2007})
groups = collections.OrderedDict()
for i in range(N):
    try: ok = float(P['Age'][i].strip('V').replace('_','.')) <= 13.0
    except ValueError: ok = False
    if not ok or i not in ud or P['Gc'][i] in ('Co','Cs','Cn'): continue
    g = {'ExtPict_XX':'Other'}.get(P['GCB'][i], P['GCB'][i])
    if g != gcb.get(i,'Other') or P['Gc'][i] != ud[i] or P['SB'][i] != sb.get(i,'Other') or P['Lb'][i] != lb.get(i,'XX'): continue
    w = {'ExtPict_LE':'ALetter','ExtPict_XX':'Other','Perl_Tailored_HSpace':'Other'}.get(P['WB'][i], P['WB'][i])
    if i in WSEG: w = 'WSegSpace'
    sc = P['Sc'][i]; s = OWN.get(sc, 'indic' if sc in INDIC else 'other')
    wide = P['Ea'][i] in ('W','F','H') and P['Lb'][i] in ('OP','CP')
    ins = P['InSC'][i]; iv = 'v' if ins=='Virama' else 'd' if ins=='Vowel_Dependent' else ''
    t = (P['Gc'][i], g, P['ExtPict'][i]=='Y', w, P['SB'][i], P['Lb'][i], wide, s, iv, P['Emoji'][i]=='Y')
    groups.setdefault(t, []).append(i)
# always there: what the tailoring of Indic, Sinhala and Arabic texts is about
EXTRA = {2509, 2765, 2381, 3277, 3405, 2893, 2637, 3021, 3149, 2507, 2508, 2524, 2525, 2527, 2611, 2614, 2649, 2652, 2888, 2891, 3144,
  3271, 3274, 3018, 3020, 3402, 3404, 2353, 2392, 2396, 2399, 0x915, 0x995, 0xa15, 0xa95, 0xb15, 0xb95, 0xc15, 0xc95, 0xd15,
  3530, 3482, 3486, 3526, 3525, 3461, 3551, 0x621, 0x622, 0x624, 0x626, 0x627, 0x628, 0x648, 0x64a, 0x64b, 0x653, 0x654, 0x655, 0x656, 0x200c, 0x200d,
  0x6c, 0x4c, 0xb7, 0x7c, 0x2010, 0x2012, 0x2013, 0x2027, 0x5be, 0xad, 0x200b, 0x2028, 0x2029, 0x2026, 0x2f, 0xab, 0xbb, 0x201c, 0x2018, 0x301c, 0x2e3a}
SKIP = set(json.load(open(os.path.join(HERE, 'breakskip.json'))))
out = []
for t, v in groups.items():
    if SKIP & set(v): continue
    pick = sorted({v[0], v[len(v)//2], v[-1]} | {v[len(v)*x//9] for x in range(1,9)} if t[1] in ('Other',) else {v[0], v[len(v)//2], v[-1]})
    if len(v) <= 24: pick = v   # small groups as a whole: the code names many of their characters one by one
    for r in sorted(set(pick) | (EXTRA & set(v))):
        out.append(dict(r=r, gc=t[0], gcb=t[1], ep=t[2], wb=t[3], sb=t[4], lb=t[5], wd=t[6], sc=t[7], iv=t[8], em=t[9]))
out.sort(key=lambda d: d['r'])
with open(os.path.join(HERE, '..', 'harness', 'data', 'breakchars.json'), 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(d, separators=(',',':')) for d in out) + '\n]\n')
print(len(groups), 'groups', len(out), 'characters')
# spec/SegChars.tla: the characters of the models
MODEL = [0x61,0x41,0x31,0x2e,0x2c,0x21,0x27,0x22,0x2d,0x28,0x29,0x3a,0x5f,0x20,10,13,0x85,0x200d,0x200b,0xad,0x5d0,0x30a2,0x3042,
  0xac00,0x1100,0x11a8,0x1f1e6,0x1f3fb,0xa0,0x2014,0x24,0x25,0x600,0x903,0x94d,0x915,0x3000,0x2060,0x1f466,0x231a,0x200c,0xdca,0xd9a]
by = {d['r']: d for d in out}
with open(os.path.join(HERE, '..', 'spec', 'SegChars.tla'), 'w') as f:
    f.write('------------------------------ MODULE SegChars ------------------------------\n(* made by tools/mkbreakchars.py: properties of the characters of the models *)\nEXTENDS Integers\nSegChar(x) == CASE ')
    f.write('\n  [] '.join('x = %d -> [%s]' % (r, ', '.join('%s |-> %s' % (k, str(v).upper() if isinstance(v, bool) else v if isinstance(v, int) else '"%s"' % v) for k, v in by[r].items())) for r in MODEL if r in by))
    f.write('\n=============================================================================\n')
print([hex(r) for r in MODEL if r not in by])
