"""Synthetic Unicode data sets: the JSON files the generator reads, with random
contents, and the answers (in the format of oracle/tables.txt) a crate built
from them has to give.  Formats and alias vocabularies are those of the
committed data; values, ranges, gaps and orders are random."""
import json, os, random

N = 0x110000
HERE = os.path.dirname(os.path.abspath(__file__))
# numbers and words changed generators mention (checks/dictionary.py; none on the original tree)
DICT = {'nums': [], 'words': []}


def odd_name(r, c, word):
    """A name of a shape that real names have: words, hyphens, the code point
    itself at the end, the beginnings of the derived names."""
    return r.choice(['%s-%04X' % (word(), c), 'CJK UNIFIED IDEOGRAPH-%04X' % c, 'KHITAN SMALL SCRIPT CHARACTER-%04X' % c, 'HANGUL SYLLABLE ' + word(), 'CJK RADICAL ' + word(), 'TANGUT COMPONENT-%03d' % (c % 1000),
                     '%s %s %s-%s' % (word(), word(), word(), word()), '%s -%s' % (word(), word()), '%s- %s' % (word(), word()), word(), '%s WITH %s AND %s' % (word(), word(), word()),
                     ' '.join(word() for _ in range(14)), '%04X' % c, '%s %X' % (word(), c)])


def names_of(prop):
    out, on = [], False
    for l in open(os.path.join(HERE, '../oracle/tables.txt')):
        if l.startswith('@'):
            on = l.strip() == '@names ' + prop
        elif on:
            out.append(l.split())
    return out


def na_ranges():
    out, on = [], False
    for l in open(os.path.join(HERE, '../oracle/tables.txt')):
        if l.startswith('@'):
            on = l.strip() == '@na_ranges'
        elif on:
            r, n = l.rstrip('\n').split(' ', 1)
            a, _, b = r.partition('-')
            out.append((int(a, 16), int(b or a, 16), n))
    return out


def key(a, b):
    return '%04X' % a if a == b else '%04X..%04X' % (a, b)


def cuts(r, n):
    """Disjoint ascending ranges: dense areas, huge ranges, lone code points,
    ranges that start or end on block and plane boundaries."""
    pts = set()
    while len(pts) < 2 * n:
        k = r.randrange(6)
        if DICT['nums'] and r.random() < 0.1:
            x = r.choice(DICT['nums'])
            x = x * r.randrange(1, 200) if x < 0x2000 and r.random() < 0.5 else x
            pts.add(max(0, min(N - 1, x + r.choice([-2, -1, -1, 0, 0, 0, 1]))))
        elif k == 0:
            pts.add(r.randrange(N))
        elif k == 1:
            pts.add(r.randrange(0x3000))
        elif k == 2:
            b = r.choice([64, 128, 256, 512, 4096, 0x10000])
            pts.add(max(0, min(N - 1, r.randrange(N // b) * b + r.choice([-1, 0, 0, 1]))))
        elif k == 3:
            c = r.randrange(N)
            for i in range(r.randrange(1, 9)):
                pts.add(min(N - 1, c + i))
        elif k == 4:
            pts.add(0x10000 + r.randrange(0x10000))
        else:
            pts.add(r.choice([0, 1, 0x7F, 0xFF, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF]))
    p = sorted(pts)
    out, i = [], 0
    while i < len(p):
        a = p[i]
        if r.random() < 0.4 or i + 1 == len(p):
            out.append((a, a))
            i += 1
        elif r.random() < 0.3:
            out.append((a, p[i + 1] - 1))   # adjacent to the next one
            i += 1
        else:
            out.append((a, p[i + 1]))
            i += 2
    return out


def shuffled_json(r, pairs):
    mode = r.randrange(3)
    pairs = list(pairs)
    if mode == 0:
        r.shuffle(pairs)
    elif mode == 1:
        pairs.sort(key=lambda p: str(p[1]))   # grouped by value, as the UCD does
    return {key(a, b): v for (a, b), v in pairs}


class Synth:
    def __init__(self, base, dst, seed):
        """base: committed data directory of one version, dst: directory to write"""
        self.r = random.Random(seed)
        self.base, self.dst = base, dst
        self.tables = {}
        self.dm, self.na = {}, {}

    def load(self, f):
        return json.load(open(os.path.join(self.base, f)))

    def save(self, f, d):
        p = os.path.join(self.dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        json.dump(d, open(p, 'w'))

    def ranges(self, f, prop, values, default, n, full=False, empty_ok=True):
        """values: (file spelling, oracle value)"""
        r = self.r
        pool = values if r.random() < 0.5 else r.sample(values, min(len(values), r.randrange(2, 6)))
        cs = cuts(r, n)
        t = [default] * N
        pairs = []
        if full:
            cur, rs = 0, []
            for a, b in cs:
                if a > cur:
                    rs.append((cur, a - 1))
                rs.append((a, b))
                cur = b + 1
            if cur < N:
                rs.append((cur, N - 1))
            cs = rs
        for a, b in cs:
            sp, v = r.choice(pool)
            pairs.append(((a, b), sp))
            t[a:b + 1] = [v] * (b - a + 1)
        self.save(f, shuffled_json(r, pairs))
        self.tables[prop] = (default, t)
        return t

    def make(self):
        r = self.r
        for f in ('PropertyAliases.json', 'PropertyValueAliases.json', 'DerivedNormalizationProps.json'):
            self.save(f, self.load(f))
        size = lambda: r.choice([3, 30, 300, 900, 2500])
        group = {'C', 'L', 'LC', 'M', 'N', 'P', 'S', 'Z'}
        self.ranges('extracted/DerivedGeneralCategory.json', 'gc', [(a, a) for a, f in names_of('gc') if a not in group], 'Cn', size(), full=True)
        delim = lambda s: ''.join(r.choice(' -') if c == '_' and r.random() < 0.15 else (' ' if c == '_' else c) for c in s)
        self.ranges('Blocks.json', 'blk', [(delim(f), a) for a, f in names_of('blk')], 'NB', size())
        self.ranges('Scripts.json', 'sc', [(f, a) for a, f in names_of('sc')], 'Zzzz', size())
        self.ranges('DerivedAge.json', 'age', [(a, a) for a, f in names_of('age') if a != 'NA'], 'NA', size())
        self.ranges('HangulSyllableType.json', 'hst', [(a, a) for a, f in names_of('hst')], 'NA', size())
        self.ranges('auxiliary/GraphemeBreakProperty.json', 'gcb', [(f, a) for a, f in names_of('gcb')], 'XX', size())
        self.ranges('extracted/DerivedCombiningClass.json', 'ccc', [(v, v) for v, a, f in names_of('ccc')], '0', size())
        self.ranges('extracted/DerivedDecompositionType.json', 'dt', [(f, a) for a, f in names_of('dt')], 'None', size())
        self.ranges('auxiliary/WordBreakProperty.json', 'wb', [(f, a) for a, f in names_of('wb')], 'XX', size())
        self.ranges('IndicSyllabicCategory.json', 'insc', [(f, a) for a, f in names_of('insc')], 'Other', size())
        # bc: explicit values over overlapping defaults, the last one wins
        bcs = [(f, a) for a, f in names_of('bc')]
        miss, base = {}, ['L'] * N
        if r.random() < 0.7:
            miss['0000..10FFFF'] = 'Left_To_Right'
        few, around = r.sample(bcs, 3), r.randrange(N)
        for _ in range(0 if r.random() < 0.1 else r.randrange(8, 26)):
            if r.random() < 0.5:
                a = r.randrange(N)
                b = min(N - 1, a + r.choice([0, 5, 255, 0x3000, 0x20000]))
                f, v = r.choice(bcs)
            else:
                # values that come again, over the ranges of others
                a = max(0, around - r.randrange(0x9000))
                b = min(N - 1, around + r.randrange(0x9000))
                f, v = r.choice(few)
            if key(a, b) in miss:
                continue
            miss[key(a, b)] = f
            base[a:b + 1] = [v] * (b - a + 1)
        self.save('extracted/DerivedBidiClass.missing.json', miss)
        t = self.ranges('extracted/DerivedBidiClass.json', 'bc', [(a, a) for f, a in bcs], '?', size())
        t = [y if x == '?' else x for x, y in zip(t, base)]
        self.tables['bc'] = ('L', t)
        # grouped binary properties
        alias = self.load('PropertyAliases.json')
        short = {}
        for a, long in alias.items():
            short.setdefault(long, 'ext_pict' if a == 'ExtPict' else a.lower())
        for f in ('PropList.json', 'emoji/emoji-data.json'):
            d = {}
            for p in self.load(f):
                cs = cuts(r, r.choice([1, 5, 40, 300]))
                t = ['0'] * N
                for a, b in cs:
                    t[a:b + 1] = ['1'] * (b - a + 1)
                if r.random() < 0.3:
                    r.shuffle(cs)
                d[p] = [key(a, b) for a, b in cs]
                self.tables[short[p]] = ('0', t)
            self.save(f, d)
        # names: committed ranges stay, single names change
        told = [w.upper().replace('_', ' ') for w in DICT['words']]
        word = lambda: r.choice(told) if told and r.random() < 0.1 else ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789') for _ in range(r.randrange(1, 9)))
        rs = na_ranges() + [(0xAC00, 0xD7A3, '')]
        inr = lambda c: any(a <= c <= b for a, b, _ in rs)
        names = {}
        for k, v in self.load('extracted/DerivedName.json').items():
            c = int(k.split('..')[0], 16)
            if inr(c):
                names[c] = (k, v)
            elif r.random() < 0.9:
                names[c] = (k, v if r.random() < 0.7 else ' '.join(word() for _ in range(r.randrange(1, 6))) + r.choice(['', '-' + word()]))
        for _ in range(500):
            c = r.randrange(N)
            if not inr(c):
                names[c] = ('%04X' % c, odd_name(r, c, word) if r.random() < 0.6 else word() + ' ' + word())
        self.save('extracted/DerivedName.json', {names[c][0]: names[c][1] for c in sorted(names)})
        self.na = {c: v for c, (k, v) in names.items() if not inr(c)}
        self.na_rs = na_ranges()
        # decomposition mappings
        d = self.load('UnicodeData.json')
        tags = ['<compat>', '<font>', '<noBreak>', '<initial>', '<medial>', '<final>', '<isolated>', '<circle>', '<super>', '<sub>', '<vertical>', '<wide>', '<narrow>', '<small>', '<square>', '<fraction>']
        for k, e in d.items():
            c = int(k, 16)
            if not 0xAC00 <= c <= 0xD7AF and not 0xD800 <= c <= 0xDFFF:
                x = r.random()
                if x < 0.02:
                    m = []
                    for _ in range(r.choice([1, 1, 2, 2, 3, 18])):
                        while True:
                            y = r.choice([r.randrange(0x20, 0x3000), r.randrange(0xE000, N), r.randrange(0x4E00, 0xA000)])
                            if y != 0x22 and y != 0x5C:
                                break
                        m.append('%04X' % y)
                    e['dm'] = ' '.join(([r.choice(tags)] if r.random() < 0.5 or len(m) > 2 else []) + m)
                elif x < 0.025:
                    e['dm'] = ''
            if e['dm']:
                w = e['dm'].split(' ')
                self.dm[c] = w
        self.save('UnicodeData.json', d)
        ce = sorted({r.randrange(N) for _ in range(r.randrange(1, 120))})
        self.save('CompositionExclusions.json', ['%04X' % c for c in ce])
        t = ['0'] * N
        for c in ce:
            t[c] = '1'
        self.tables['ce'] = ('0', t)

    def write_tables(self, path):
        with open(path, 'w') as f:
            f.write('# synthetic\n')
            for p, (default, t) in sorted(self.tables.items()):
                rs, i = {}, 0
                while i < N:
                    j, v = i, t[i]
                    while j < N and t[j] == v:
                        j += 1
                    if v != default:
                        rs.setdefault(v, []).append('%X' % i if j == i + 1 else '%X-%X' % (i, j - 1))
                    i = j
                f.write('@prop %s\ndefault %s\n' % (p, default))
                for v, x in sorted(rs.items()):
                    f.write('%s %s\n' % (v, ' '.join(x)))
            f.write('@dm\n')
            for c, w in sorted(self.dm.items()):
                f.write('%X %s\n' % (c, ' '.join(w)))
            f.write('@na\n')
            for c, n in sorted(self.na.items()):
                f.write('%X %s\n' % (c, n))
            f.write('@na_ranges\n')
            for a, b, n in self.na_rs:
                f.write('%X-%X %s\n' % (a, b, n))
