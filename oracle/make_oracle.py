#!/usr/bin/env python3
"""Builds the pinned oracle tables (oracle/tables.txt) for Unicode 15.1.0.

    make_oracle.py UCD_JSON_DIR ICU_DUMP.tsv ICU_NAMES.tsv OUT

Two sources that share nothing are used:
  * the UCD data files (JSON form) as shipped with the base commit, and
  * a dump of the system ICU 74 (Unicode 15.1), see icu_dump.cpp.
Every property both sources have must agree on all 1,114,112 code points (any
disagreement is printed and makes this script fail).  Derived properties come
from ICU alone, the `Other_*` contributory properties and CE from the UCD files
alone and are cross-checked through the derived properties they feed.
No check runs this script: the tables are committed, so an edit of the data in
/repo cannot silently move the oracle.
"""
import json, os, sys
D, ICU, NAMES, OUT = sys.argv[1:5]
N = 0x110000
J = lambda f: json.load(open(os.path.join(D, f + '.json')))
def rng(s):
    a = s.split('..'); return int(a[0], 16), int(a[-1], 16)
pa = J('PropertyAliases'); pva = J('PropertyValueAliases')
loose = lambda s: s.replace('_', '').replace('-', '').replace(' ', '').lower()
def abbr(p, long):
    for k, v in pva[p].items():
        if loose(v) == loose(long): return k
    raise KeyError((p, long))
def fill(default, d, conv=lambda v: v):
    t = [default] * N
    for k, v in d.items():
        a, b = rng(k); v = conv(v)
        for c in range(a, b + 1): t[c] = v
    return t
def binary(ranges):
    t = ['0'] * N
    for k in ranges:
        a, b = rng(k)
        for c in range(a, b + 1): t[c] = '1'
    return t
P = {}   # name -> list of values
P['gc'] = fill('Cn', J('extracted/DerivedGeneralCategory'))
bc = ['L'] * N
for k, v in J('extracted/DerivedBidiClass.missing').items():
    a, b = rng(k); v = abbr('bc', v)
    for c in range(a, b + 1): bc[c] = v
for k, v in J('extracted/DerivedBidiClass').items():
    a, b = rng(k)
    for c in range(a, b + 1): bc[c] = v
P['bc'] = bc
P['ccc'] = fill('0', J('extracted/DerivedCombiningClass'))
P['dt'] = fill('None', J('extracted/DerivedDecompositionType'), lambda v: abbr('dt', v))
P['blk'] = fill('NB', J('Blocks'), lambda v: abbr('blk', v))
P['sc'] = fill('Zzzz', J('Scripts'), lambda v: abbr('sc', v))
P['age'] = fill('NA', J('DerivedAge'))
P['gcb'] = fill('XX', J('auxiliary/GraphemeBreakProperty'), lambda v: abbr('GCB', v))
P['wb'] = fill('XX', J('auxiliary/WordBreakProperty'), lambda v: abbr('WB', v))
P['hst'] = fill('NA', J('HangulSyllableType'))
P['insc'] = fill('Other', J('IndicSyllabicCategory'))
long2m = {}
for k, v in pa.items(): long2m[v] = k
meth = lambda a: 'ext_pict' if a == 'ExtPict' else a.lower()
for long, ranges in J('PropList').items():
    if long.startswith('@'): continue
    P[{'IDS_Unary_Operator': 'idsu', 'ID_Compat_Math_Start': 'idcms', 'ID_Compat_Math_Continue': 'idcmc'}.get(long) or meth(long2m[long]) if long != 'White_Space' else 'wspace'] = binary(ranges)
for long, ranges in J('emoji/emoji-data').items():
    P[meth(long2m[long])] = binary(ranges)
P['ce'] = binary(J('CompositionExclusions'))
P['comp_ex'] = binary(J('DerivedNormalizationProps')['Full_Composition_Exclusion'])
ud = J('UnicodeData')
dmap, dtag = {}, {}
for k, v in ud.items():
    if v['dm']:
        f = v['dm'].split(); tag = ''
        if f[0][0] == '<': tag = f[0]; f = f[1:]
        dmap[int(k, 16)] = [int(x, 16) for x in f]; dtag[int(k, 16)] = tag
# --- ICU
icu = {}
with open(ICU) as f:
    assert f.readline().strip() == '#\t15.1.0'
    cols = f.readline().rstrip('\n').split('\t')
    for c in cols: icu[c] = []
    for l in f:
        for c, v in zip(cols, l.rstrip('\n').split('\t')): icu[c].append(v)
assert len(icu['cp']) == N
bad = 0
def diff(name, mine, theirs):
    global bad
    n = [i for i in range(N) if mine[i] != theirs[i]]
    if n:
        bad += 1
        print('DISAGREE', name, len(n), [(hex(i), mine[i], theirs[i]) for i in n[:6]])
    else: print('agree', name)
icu['age'] = ['NA' if v == '0.0' else v for v in icu['age']]
both = [p for p in P if p in icu]
for p in both: diff(p, P[p], icu[p])
for p in P:
    if p not in icu: print('UCD files only:', p, P[p].count('1'))
# derived: from ICU only
for p in ['math','alpha','lower','upper','cased','ci','di','gr_ext','ids','idc','xids','xidc']:
    P[p] = icu[p]; 
# cross-check contributory properties through UCD derivation formulas
g = P['gc']
IN = lambda i, s: g[i] in s
chk = {
 'math': lambda i: IN(i, ('Sm',)) or P['omath'][i] == '1',
 'lower': lambda i: IN(i, ('Ll',)) or P['olower'][i] == '1',
 'upper': lambda i: IN(i, ('Lu',)) or P['oupper'][i] == '1',
 'alpha': lambda i: IN(i, ('Lu','Ll','Lt','Lm','Lo','Nl')) or P['oalpha'][i] == '1' or P['olower'][i] == '1' or P['oupper'][i] == '1',
 'gr_ext': lambda i: IN(i, ('Me','Mn')) or P['ogr_ext'][i] == '1',
 'ids': lambda i: (IN(i, ('Lu','Ll','Lt','Lm','Lo','Nl')) or P['oids'][i] == '1') and P['pat_syn'][i] == '0' and P['pat_ws'][i] == '0',
 'idc': lambda i: (IN(i, ('Lu','Ll','Lt','Lm','Lo','Nl','Mn','Mc','Nd','Pc')) or P['oids'][i] == '1' or P['oidc'][i] == '1') and P['pat_syn'][i] == '0' and P['pat_ws'][i] == '0',
}
for p, f in chk.items(): diff('formula ' + p, ['1' if f(i) else '0' for i in range(N)], icu[p])
# decomposition
SB = 0xAC00
def hangul(c):
    s = c - SB
    if s % 28: return [SB + s // 28 * 28, 0x11A7 + s % 28]
    return [0x1100 + s // 588, 0x1161 + s % 588 // 28]
mine = ['' if i not in dmap else ' '.join('%04X' % x for x in dmap[i]) for i in range(N)]
for i in range(SB, SB + 11172): mine[i] = ' '.join('%04X' % x for x in hangul(i))
diff('dm', mine, icu['dm'])
diff('canonical dm', [m if (P['dt'][i] == 'Can') else '' for i, m in enumerate(mine)], icu['cdm'])
# names
dn = J('extracted/DerivedName')
na = [''] * N
for k, v in dn.items():
    a, b = rng(k)
    for c in range(a, b + 1):
        na[c] = v.replace('*', '%04X' % c) if '*' in v else v
diff('na', na, icu['na'])
# InCB (15.1 definition, UAX #44)
S = ('Beng', 'Deva', 'Gujr', 'Mlym', 'Orya', 'Telu')
incb = []
for i in range(N):
    isc = P['insc'][i]
    if P['sc'][i] in S and isc == 'Virama': v = 'Linker'
    elif P['sc'][i] in S and isc == 'Consonant': v = 'Consonant'
    elif (P['gcb'][i] == 'EX' and P['ccc'][i] != '0' or P['gcb'][i] == 'ZWJ') and isc not in ('Virama', 'Consonant'): v = 'Extend'
    else: v = 'None'
    incb.append(v)
P['incb'] = incb
alt = sum(1 for i in range(N) if incb[i] == 'None' and P['gcb'][i] == 'EX' and P['ccc'][i] != '0')
print('InCB counts', {k: incb.count(k) for k in set(incb)}, 'viramas excluded from Extend', alt)
with open(OUT, 'w') as f:
    f.write('# Unicode 15.1.0 oracle tables, generated by make_oracle.py; do not edit\n')
    for p in sorted(P):
        t = P[p]
        f.write('@prop %s\n' % p)
        s = 0
        vals = {}
        for i in range(1, N + 1):
            if i == N or t[i] != t[s]:
                vals.setdefault(t[s], []).append((s, i - 1)); s = i
        # the most common value is the default
        cnt = {v: sum(b - a + 1 for a, b in r) for v, r in vals.items()}
        dflt = max(sorted(cnt), key=lambda v: cnt[v])
        f.write('default %s\n' % dflt)
        for v in sorted(vals):
            if v == dflt: continue
            f.write('%s %s\n' % (v, ' '.join('%X' % a if a == b else '%X-%X' % (a, b) for a, b in vals[v])))
    f.write('@dm\n')
    for c in sorted(dmap):
        f.write('%X %s%s\n' % (c, dtag[c] + ' ' if dtag[c] else '', ' '.join('%X' % x for x in dmap[c])))
    f.write('@na\n')
    for c in range(N):
        if na[c] and not (SB <= c < SB + 11172):
            if na[c].endswith('-%04X' % c): continue
            f.write('%X %s\n' % (c, na[c]))
    f.write('@na_ranges\n')
    s = None
    pref = lambda c: na[c][:-len('%04X' % c)] if na[c].endswith('-%04X' % c) else None
    for c in range(N + 1):
        p = pref(c) if c < N else None
        if s is not None and p != ps: f.write('%X-%X %s\n' % (s, c - 1, ps)); s = None
        if s is None and p: s, ps = c, p
    # property value names (abbr, long); for ccc (value, abbr, long)
    inames = {}
    for l in open(NAMES):
        p, v, s, lg = l.rstrip('\n').split('\t')
        inames.setdefault(p, []).append((v, s, lg))
    for p, key in [('gc','gc'),('hst','hst'),('gcb','GCB'),('bc','bc'),('dt','dt'),('blk','blk'),('sc','sc'),('age','age'),('wb','WB'),('insc','InSC'),('incb','InCB')]:
        mine = dict(pva[key])
        if p in inames:
            for v, s, lg in inames[p]:
                if mine.get(s) != lg:
                    # ICU lists scripts UCD does not assign yet, and '_' variants
                    print('name', p, v, s, lg, 'UCD files:', mine.get(s))
            missing = set(mine) - {s for v, s, lg in inames[p]}
            if missing: print('names only in UCD files', p, sorted(missing)[:12])
        f.write('@names %s\n' % p)
        for k, v in mine.items(): f.write('%s %s\n' % (k, v))
    f.write('@names ccc\n')
    for v, s, lg in inames['ccc']:
        if v in pva['ccc'] and pva['ccc'][v] != s: print('name ccc', v, s, lg, pva['ccc'][v])
        if v in pva['ccc']: f.write('%s %s %s\n' % (v, s, lg))
    print('ccc names only in one source', sorted(set(pva['ccc']) ^ {v for v, s, lg in inames['ccc']}))
print('sources disagree on', bad, 'properties' if bad else '')
sys.exit(1 if bad else 0)
