#!/usr/bin/env python3
"""Writes src/variants.rs: oracle value -> public enum variant, from the oracle
tables (never from /repo's sources)."""
import os
here = os.path.dirname(os.path.abspath(__file__))
names, ccc, cur = {}, [], None
for l in open(os.path.join(here, '../oracle/tables.txt')):
    l = l.rstrip('\n')
    if l.startswith('@'):
        cur = l.split()[1] if l.startswith('@names') else None
        continue
    if cur == 'ccc': ccc.append(l.split())
    elif cur: names.setdefault(cur, []).append(l.split())
pascal = lambda s: ''.join(w.title() for w in s.split('_'))
out = ['// Generated by gen_variants.py from oracle/tables.txt; do not edit.',
       'use seshat::unicode::props::*;', '']
def emit(const, enum, rows):
    out.append('/// (oracle value, variant, abbreviated name, full name)')
    out.append('pub const %s: &[(&str, %s, &str, &str)] = &[' % (const, enum))
    for val, var, ab, full in rows: out.append('    ("%s", %s::%s, "%s", "%s"),' % (val, enum, var, ab, full))
    out.append('];'); out.append('')
group = {'C', 'L', 'LC', 'M', 'N', 'P', 'S', 'Z'}
skip_sc = {'Katakana_Or_Hiragana'}
for p, enum in [('gc','Gc'),('hst','Hst'),('gcb','Gcb'),('bc','Bc'),('dt','Dt'),('wb','Wb'),('incb','Incb'),('insc','Insc')]:
    rows = [(a, a, a, f) for a, f in names[p] if not (p == 'gc' and a in group)]
    emit(p.upper(), enum, rows)
emit('AGE', 'Age', [(a, f if a != 'NA' else 'NA', a, f) for a, f in names['age']])
emit('SC', 'Sc', [(a, pascal(a), a, f) for a, f in names['sc']])
emit('BLK', 'Blk', [(a, pascal(a), a, f) for a, f in names['blk']])
emit('CCC', 'Ccc', [(v, s, s, lg) for v, s, lg in ccc])
open(os.path.join(here, 'src/variants.rs'), 'w').write('\n'.join(out))
