"""A data set as a later version of Unicode could bring it: everything the
committed data has, and some hundreds of new characters in code points that
are unassigned today, with the answers a crate built from it has to give.  The
new characters obey the stability policies (canonically ordered mappings,
unique primary composites), so that every algorithm is defined on them."""
import json, os, random

from checks.synth import N, HERE, key, names_of, odd_name

INCB_SCRIPTS = ('Beng', 'Deva', 'Gujr', 'Mlym', 'Orya', 'Telu')


def sections():
    out = []
    for l in open(os.path.join(HERE, '../oracle/tables.txt')):
        l = l.rstrip('\n')
        if l.startswith('@'):
            out.append((l[1:], []))
        elif out:
            out[-1][1].append(l)
    return out


def flat_prop(lines):
    t, default = None, None
    for l in lines:
        w = l.split(' ')
        if w[0] == 'default':
            default = w[1]
            t = [default] * N
            continue
        for x in w[1:]:
            a, _, b = x.partition('-')
            a, b = int(a, 16), int(b or a, 16)
            t[a:b + 1] = [w[0]] * (b - a + 1)
    return default, t


class Augment:
    def __init__(self, base, dst, seed):
        self.r, self.base, self.dst = random.Random(seed), base, dst

    def load(self, f):
        return json.load(open(os.path.join(self.base, f)))

    def save(self, f, d):
        p = os.path.join(self.dst, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        json.dump(d, open(p, 'w'))

    def patch_ranges(self, f, new):
        """new: code point -> spelling; the other code points stay as they are"""
        t = [None] * N
        for k, v in self.load(f).items():
            a, _, b = k.partition('..')
            a, b = int(a, 16), int(b or a, 16)
            t[a:b + 1] = [v] * (b - a + 1)
        for c, v in new.items():
            t[c] = v
        out, i = [], 0
        while i < N:
            j = i
            while j < N and t[j] == t[i]:
                j += 1
            if t[i] is not None:
                out.append((i, j - 1, t[i]))
            i = j
        if self.r.random() < 0.5:
            out.sort(key=lambda x: x[2])
        self.save(f, {key(a, b): v for a, b, v in out})

    def patch_groups(self, f, new):
        """new: group -> set of code points that join it"""
        d = self.load(f)
        for g, cs in new.items():
            have = set()
            for k in d[g]:
                a, _, b = k.partition('..')
                have.update(range(int(a, 16), int(b or a, 16) + 1))
            s, out = sorted(have | cs), []
            for c in s:
                if out and out[-1][1] == c - 1:
                    out[-1][1] = c
                else:
                    out.append([c, c])
            d[g] = [key(a, b) for a, b in out]
        self.save(f, d)

    def make(self):
        r = self.r
        secs = sections()
        self.secs = secs
        self.P = {h[5:]: flat_prop(l) for h, l in secs if h.startswith('prop ')}
        T = {p: t for p, (d, t) in self.P.items()}
        self.dm = {int(l.split(' ')[0], 16): l.split(' ')[1:] for l in dict(secs)['dm']}
        self.na = {int(l.split(' ', 1)[0], 16): l.split(' ', 1)[1] for l in dict(secs)['na']}
        for f in ('PropertyAliases.json', 'PropertyValueAliases.json', 'DerivedNormalizationProps.json', 'Blocks.json',
                  'extracted/DerivedBidiClass.missing.json'):
            self.save(f, self.load(f))
        na_rs = [tuple(int(y, 16) for y in (l.split(' ')[0].split('-') * 2)[:2]) for l in dict(secs)['na_ranges']]
        free = [c for c in range(N) if T['gc'][c] == 'Cn' and T['nchar'][c] == '0' and not 0xD7A4 <= c <= 0xD7AF and not any(a <= c <= b for a, b in na_rs)
                and T['odi'][c] == '0' and T['pat_syn'][c] == '0' and T['ext_pict'][c] == '0']
        low = [c for c in free if c < 0x3000]
        mid = [c for c in free if 0xA000 <= c < 0x10000]
        high = [c for c in free if c >= 0x10000]
        take = set(r.sample(low, min(len(low), 180))) | set(r.sample(mid, min(len(mid), 120))) | set(r.sample(high, 300))
        a = r.choice(high[:20000])
        take |= {c for c in range(a, a + 90) if c in set(high[:30000])}
        take |= {c for c in (0x10FFFD, 0xE01EF + 1, 0x2FA20, 0x323B0) if T['gc'][c] == 'Cn' and T['odi'][c] == '0'}
        new = sorted(take)
        r.shuffle(new)
        scripts = [(a, f) for a, f in names_of('sc') if a not in ('Zzzz', 'Zinh', 'Zyyy', 'Qaai', 'Qaac', 'Hrkt')]
        prev = {}   # property -> {cp: value}
        def put(p, c, v):
            T[p][c] = v
            prev.setdefault(p, {})[c] = v
        flags = {}
        def flag(p, c):
            T[p][c] = '1'
            flags.setdefault(p, set()).add(c)
        cccs = [v for v, a, f in names_of('ccc') if v in ('1', '6', '7', '8', '10', '84', '103', '202', '214', '216', '218', '220', '222', '224', '226', '228', '230', '232', '233', '234', '240')]
        composites = {}   # pair -> composite, all canonical pairs
        for c, w in self.dm.items():
            if not w[0].startswith('<') and len(w) == 2:
                composites[tuple(int(x, 16) for x in w)] = c
        expand = {}

        def full(c, k):
            if 0xAC00 <= c < 0xAC00 + 11172:
                s = c - 0xAC00
                return [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11A7 + s % 28] if s % 28 else [])
            w = self.dm.get(c)
            if w is None or (w[0].startswith('<') and not k):
                return [c]
            return [y for x in w if not x.startswith('<') for y in full(int(x, 16), k)]

        ccc = lambda c: int(T['ccc'][c])
        marks = [c for c in range(N) if ccc(c) and c not in self.dm]
        letters = [c for c in range(N) if T['gc'][c] in ('Lu', 'Ll', 'Lo') and ccc(c) == 0 and c not in self.dm and not 0xAC00 <= c <= 0xD7A3 and not 0x1100 <= c <= 0x11FF and c < 0x20000]
        letters = r.sample(letters, 4000) + [ord(x) for x in 'aeiouAEIOUnsc']
        newc = {}
        bidi = [a for a, f in names_of('bc')]
        tags = ['<compat>', '<font>', '<noBreak>', '<initial>', '<medial>', '<final>', '<isolated>', '<circle>', '<super>', '<sub>', '<vertical>', '<wide>', '<narrow>', '<small>', '<square>', '<fraction>']
        dt_abbr = dict((f.lower(), a) for a, f in names_of('dt'))
        word = lambda: ''.join(r.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(r.randrange(2, 9)))
        pairs_new, ce_new, mine = 0, set(), []
        for c in new:
            kind = r.choices(['mark', 'mark0', 'letter', 'pair', 'pair', 'single', 'compat', 'emoji', 'prepend', 'indic', 'jamo', 'format', 'ri', 'number', 'cased'],
                             [10, 3, 10, 16, 16, 3, 12, 6, 3, 8, 5, 2, 2, 4, 6])[0]
            gc, cc, gcb, wb, bc, sc, hst, insc = 'Lo', '0', 'XX', 'LE', 'L', r.choice(scripts)[0], 'NA', 'Other'
            dm = None
            if kind in ('mark', 'mark0'):
                gc, gcb, wb, bc, sc = r.choice(['Mn', 'Mn', 'Mn', 'Me' if kind == 'mark0' else 'Mc']), 'EX', 'Extend', 'NSM', r.choice(['Zinh', sc])
                cc = r.choice(cccs) if kind == 'mark' else '0'
                if kind == 'mark0' and r.random() < 0.4:
                    gc, gcb = 'Mc', 'SM'
            elif kind == 'letter':
                bc = r.choice(['L', 'R', 'AL'])
            elif kind == 'cased':
                gc = r.choice(['Lu', 'Ll', 'Lt', 'Lm'])
                if r.random() < 0.4:
                    gc = 'So'
                    flag(r.choice(['oupper', 'olower', 'oalpha']), c)
            elif kind == 'pair':
                for _ in range(50):
                    pool = r.choice([letters, mine, mine, letters, marks if r.random() < 0.1 else mine])
                    if not pool:
                        continue
                    a = r.choice(pool)
                    b = r.choice(r.choice([marks, marks, [x for x in mine if ccc(x)] or marks, mine or marks, letters]))
                    ea, eb = full(a, False), full(b, False)
                    if a in ce_new or b in self.dm or (a, b) in composites or len(ea) > 3:
                        continue
                    if a in self.dm and (self.dm[a][0].startswith('<') or T['comp_ex'][a] == '1'):
                        continue
                    e = ea + eb
                    if any(ccc(e[i]) > ccc(e[i + 1]) > 0 for i in range(len(e) - 1)):
                        continue
                    if 0x1161 <= b <= 0x11C2:
                        continue
                    # a non-starter decomposition has only non-starters
                    if ccc(e[0]) != 0 and (ccc(a) == 0 or ccc(b) == 0):
                        continue
                    if ccc(e[0]) == 0:
                        cc = '0'
                    else:
                        cc, gc, gcb, wb, bc = str(ccc(a)), 'Mn', 'EX', 'Extend', 'NSM'
                    dm = ['%04X' % a, '%04X' % b]
                    composites[(a, b)] = c
                    pairs_new += 1
                    if r.random() < 0.15:
                        ce_new.add(c)
                    break
            elif kind == 'single':
                x = r.choice([x for x in letters + marks[:200] if x not in self.dm])
                dm = ['%04X' % x]
                cc = T['ccc'][x]
                if cc != '0':
                    gc, gcb, wb, bc = 'Mn', 'EX', 'Extend', 'NSM'
            elif kind == 'compat':
                dm = [r.choice(tags)] + ['%04X' % r.choice(letters + mine) for _ in range(r.choice([1, 1, 2, 3, 6]))]
                if r.random() < 0.3:
                    dm.append('%04X' % r.choice(marks))
                gc = r.choice(['So', 'Lo', 'Lm', 'No'])
            elif kind == 'emoji':
                gc, wb, bc, sc = 'So', 'XX', 'ON', 'Zyyy'
                for p in r.choice([['emoji', 'ext_pict'], ['emoji', 'epres', 'ext_pict'], ['emoji', 'epres', 'ebase', 'ext_pict'], ['ext_pict']]):
                    flag(p, c)
            elif kind == 'prepend':
                gc, gcb, insc = 'Lo', 'PP', 'Consonant_Prefixed'
            elif kind == 'indic':
                sc = r.choice(INCB_SCRIPTS + ('Deva', 'Taml', 'Knda'))
                if r.random() < 0.3 and sc in INCB_SCRIPTS:
                    gc, gcb, wb, bc, insc, cc = 'Mn', 'EX', 'Extend', 'NSM', 'Virama', r.choice(['0', '9'])
                elif r.random() < 0.4:
                    gc, gcb, wb, bc, insc, cc = 'Mn', 'EX', 'Extend', 'NSM', 'Nukta', '7'
                else:
                    insc = 'Consonant'
            elif kind == 'jamo':
                hst = gcb = r.choice(['L', 'V', 'T'])
                sc = 'Hang'
            elif kind == 'format':
                gc, gcb, wb, bc, sc = 'Cf', 'CN', 'FO', 'BN', 'Zyyy'
            elif kind == 'ri':
                gc, gcb, wb, sc = 'So', 'RI', 'RI', 'Zyyy'
                flag('ri', c)
            elif kind == 'number':
                gc, wb, bc = 'Nd', 'NU', r.choice(['EN', 'AN'])
            if kind in ('letter', 'compat', 'number'):
                for p in ('dash', 'hyphen', 'qmark', 'term', 'omath', 'hex', 'ideo', 'dia', 'ext', 'dep', 'sd', 'loe', 'oids', 'oidc', 'sterm', 'radical', 'uideo', 'odi', 'wspace'):
                    if r.random() < 0.05:
                        flag(p, c)
            if gcb == 'EX' and gc == 'Mc':
                flag('ogr_ext', c)
            if gcb == 'EX' and gc not in ('Mn', 'Me', 'Mc'):
                flag('ogr_ext', c)
            put('gc', c, gc); put('ccc', c, cc); put('gcb', c, gcb); put('bc', c, bc); put('sc', c, sc); put('hst', c, hst)
            put('wb', c, wb)
            put('age', c, '15.1')
            put('insc', c, insc)
            dt = 'None'
            if dm:
                self.dm[c] = dm
                dt = 'Can' if not dm[0].startswith('<') else dt_abbr[{'<compat>': 'compat', '<fraction>': 'fraction'}.get(dm[0], dm[0].strip('<>')).lower()]
            put('dt', c, dt)
            self.na[c] = odd_name(r, c, word) if r.random() < 0.5 else ' '.join(word() for _ in range(r.randrange(1, 5)))
            newc[c] = kind
            if kind in ('letter', 'mark', 'pair', 'mark0') and c not in ce_new:
                mine.append(c)
        self.kinds = {k: sum(1 for v in newc.values() if v == k) for k in set(newc.values())}
        for c in ce_new:
            flag('ce', c)
        # derived properties, by their definitions
        on = lambda p, c: T[p][c] == '1'
        b = lambda x: '1' if x else '0'
        for c in newc:
            gc = T['gc'][c]
            T['math'][c] = b(gc == 'Sm' or on('omath', c))
            T['lower'][c] = b(gc == 'Ll' or on('olower', c))
            T['upper'][c] = b(gc == 'Lu' or on('oupper', c))
            T['cased'][c] = b(on('lower', c) or on('upper', c) or gc == 'Lt')
            T['alpha'][c] = b(on('lower', c) or on('upper', c) or gc in ('Lt', 'Lm', 'Lo', 'Nl') or on('oalpha', c))
            T['ci'][c] = b(T['wb'][c] in ('ML', 'MB', 'SQ') or gc in ('Mn', 'Me', 'Cf', 'Lm', 'Sk'))
            pat = on('pat_syn', c) or on('pat_ws', c)
            T['ids'][c] = b((gc in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl') or on('oids', c)) and not pat)
            T['idc'][c] = b((on('ids', c) or gc in ('Mn', 'Mc', 'Nd', 'Pc') or on('oidc', c)) and not pat)
            T['xids'][c], T['xidc'][c] = T['ids'][c], T['idc'][c]
            T['di'][c] = b((on('odi', c) or gc == 'Cf' or on('vs', c)) and not on('wspace', c) and not on('pcm', c) and not 0xFFF9 <= c <= 0xFFFB and not 0x13430 <= c <= 0x13440)
            T['gr_ext'][c] = b(gc in ('Me', 'Mn') or on('ogr_ext', c))
            i, s = T['insc'][c], T['sc'][c]
            T['incb'][c] = ('Linker' if s in INCB_SCRIPTS and i == 'Virama' else 'Consonant' if s in INCB_SCRIPTS and i == 'Consonant'
                            else 'Extend' if T['gcb'][c] == 'EX' and T['ccc'][c] != '0' else 'None')
            w = self.dm.get(c)
            can = w is not None and not w[0].startswith('<')
            T['comp_ex'][c] = b(on('ce', c) or (can and len(w) == 1) or (can and (ccc(c) != 0 or int(T['ccc'][full(int(w[0], 16), False)[0]]) != 0)))
        # the files
        full_of = lambda p: {a: f for a, f in names_of(p)}
        self.patch_ranges('extracted/DerivedGeneralCategory.json', prev['gc'])
        f = full_of('sc')
        self.patch_ranges('Scripts.json', {c: f[v] for c, v in prev['sc'].items()})
        self.patch_ranges('DerivedAge.json', {c: '15.1' for c in newc})
        self.patch_ranges('HangulSyllableType.json', {c: v for c, v in prev['hst'].items() if v != 'NA'})
        f = full_of('gcb')
        self.patch_ranges('auxiliary/GraphemeBreakProperty.json', {c: f[v] for c, v in prev['gcb'].items() if v != 'XX'})
        self.patch_ranges('extracted/DerivedCombiningClass.json', prev['ccc'])
        f = full_of('dt')
        self.patch_ranges('extracted/DerivedDecompositionType.json', {c: f[v] for c, v in prev['dt'].items() if v != 'None'})
        f = full_of('wb')
        self.patch_ranges('auxiliary/WordBreakProperty.json', {c: f[v] for c, v in prev['wb'].items() if v != 'XX'})
        inv = {a: f for a, f in names_of('insc')}
        self.patch_ranges('IndicSyllabicCategory.json', {c: inv[v] for c, v in prev['insc'].items() if v != 'Other'})
        self.patch_ranges('extracted/DerivedBidiClass.json', prev['bc'])
        alias = self.load('PropertyAliases.json')
        long = {}
        for a, l in alias.items():
            long['ext_pict' if a == 'ExtPict' else a.lower()] = l
        emoji = {p for p in flags if long[p] in self.load('emoji/emoji-data.json')}
        self.patch_groups('emoji/emoji-data.json', {long[p]: flags[p] for p in emoji})
        self.patch_groups('PropList.json', {long[p]: s for p, s in flags.items() if p not in emoji and p != 'ce'})
        d = self.load('extracted/DerivedName.json')
        d.update({'%04X' % c: self.na[c] for c in newc})
        self.save('extracted/DerivedName.json', dict(sorted(d.items(), key=lambda x: int(x[0].split('..')[0], 16))))
        d = self.load('UnicodeData.json')
        for c in newc:
            d['%04X' % c] = {'na': self.na[c], 'gc': T['gc'][c], 'ccc': T['ccc'][c], 'bc': T['bc'][c], 'dm': ' '.join(self.dm.get(c, []))}
        self.save('UnicodeData.json', dict(sorted(d.items(), key=lambda x: int(x[0].split('..')[0], 16))))
        self.save('CompositionExclusions.json', ['%04X' % c for c in sorted({int(x, 16) for x in self.load('CompositionExclusions.json')} | ce_new)])
        self.new, self.pairs_new = sorted(newc), pairs_new

    def write_tables(self, path):
        with open(path, 'w') as f:
            f.write('# committed data and %d more characters\n' % len(self.new))
            for h, lines in self.secs:
                f.write('@%s\n' % h)
                if h.startswith('prop '):
                    default, t = self.P[h[5:]]
                    rs, i = {}, 0
                    while i < N:
                        j, v = i, t[i]
                        while j < N and t[j] == v:
                            j += 1
                        if v != default:
                            rs.setdefault(v, []).append('%X' % i if j == i + 1 else '%X-%X' % (i, j - 1))
                        i = j
                    f.write('default %s\n' % default)
                    for v, x in sorted(rs.items()):
                        f.write('%s %s\n' % (v, ' '.join(x)))
                elif h == 'dm':
                    for c, w in sorted(self.dm.items()):
                        f.write('%X %s\n' % (c, ' '.join(w)))
                elif h == 'na':
                    for c, n in sorted(self.na.items()):
                        f.write('%X %s\n' % (c, n))
                else:
                    f.write('\n'.join(lines) + ('\n' if lines else ''))
