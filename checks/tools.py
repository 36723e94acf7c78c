"""Checks of the generators under tools/ucd-tool (run in scratch copies, the
output compiled and observed) and of the work the algorithms do."""
import concurrent.futures as cf
import collections
import json
import os
import random
import re
import shutil
import stat
import sys
import time

import vlib
from vlib import Inconclusive, log
from checks import dictionary, synth
from checks.augment import Augment
from checks.synth import Synth

synth.DICT.update(dictionary.python_dictionary(vlib.REPO))

PYENV = {'PYTHONDONTWRITEBYTECODE': '1'}
DATA = '15.1.0'


def copy_tree(ctx, name, data=True):
    """A scratch copy of the parts of the tree a generator reads or writes."""
    d = os.path.join(ctx.scratch, name)
    os.makedirs(os.path.join(d, 'tests'))
    shutil.copytree(os.path.join(vlib.REPO, 'src'), os.path.join(d, 'src'))
    shutil.copytree(os.path.join(vlib.REPO, 'tools'), os.path.join(d, 'tools'),
                    ignore=None if data else (lambda p, ns: [n for n in ns if p.endswith('ucd-tool/data') and re.match(r'\d', n)] + ['__pycache__']))
    shutil.copy(os.path.join(vlib.REPO, 'Cargo.toml'), d)
    return d


def py(script, tool, timeout=600, env=None):
    return vlib.run(['python3', script], timeout, env=dict(PYENV, **(env or {})), cwd=tool, mem_gb=12)


def tail(s, n=12):
    return '\n'.join(s.strip().splitlines()[-n:])


# ---------------------------------------------------------------------- C31
def dataset(ctx, name, synth_seed, secs):
    """Regenerates the crate from one data set and has it monitored.
    -> list of (case, what), evidence"""
    d = copy_tree(ctx, name)
    tool = os.path.join(d, 'tools', 'ucd-tool')
    env = {}
    if synth_seed is not None:
        dst = os.path.join(tool, 'data', DATA)
        new = os.path.join(ctx.scratch, name + '-data')
        s = (Augment if name.startswith('later') else Synth)(dst, new, synth_seed)
        s.make()
        for root, _, fs in os.walk(new):
            for f in fs:
                shutil.copy(os.path.join(root, f), os.path.join(dst, os.path.relpath(root, new), f))
        env['VMON_TABLES'] = os.path.join(ctx.scratch, name + '-tables.txt')
        s.write_tables(env['VMON_TABLES'])
    before = snapshot(os.path.join(d, 'src'))
    # nothing stale can pass for something generated
    gen_dir = os.path.join(d, 'src', 'unicode', 'ucd')
    case = 'data set %s' % name
    rc, o, e = py('ucd-tool.py', tool)
    if rc is None:
        raise Inconclusive('the generator did not finish in 600 s')
    if rc != 0:
        return [(case, 'the generator fails: %s' % tail(e, 3))], {}
    after = snapshot(os.path.join(d, 'src'))
    changed = [k for k in after if after[k] != before.get(k)]
    try:
        b = vlib.build('checked', repo=d)
    except Inconclusive as x:
        return [(case, 'the crate with the regenerated tables does not compile: %s' % tail(str(x), 25))], {}
    sub = vlib.Ctx(ctx.id, ctx.tier, ctx.seed)
    sub.scratch, keep = os.path.join(ctx.scratch, name + '-run'), sub.scratch
    os.makedirs(sub.scratch)
    shutil.rmtree(keep, ignore_errors=True)
    vlib.vmon(sub, b, 'C31', name, secs, env=env, threads=4)
    if not name.startswith('synthetic') and not sub.viols:
        # what only the algorithms show of the regenerated tables (the
        # composition map), and the properties with their own derivations
        more = ('C05', 'C15', 'C12', 'C21', 'C22', 'C26')
        if name.startswith('later'):
            more += ('C10', 'C14')
            if ctx.thorough:
                more += ('C23', 'C24')
        elif ctx.thorough:
            more += ('C14', 'C23', 'C28', 'C36')
        for p in more:
            if not sub.viols:
                vlib.vmon(sub, b, p, name + ' ' + p, secs, env=env, tier='quick', threads=6)
                sub.viols = [v for v in sub.viols if not fails_as_committed(ctx, p, v)]
    shutil.rmtree(d, ignore_errors=True)
    return [('%s %s' % (name, v['case']), v['what']) for v in sub.viols], dict(
        files_rewritten_with_other_contents=len(changed), evaluations=sub.evaluations, distinct=sub.distinct, stages=sub.stages, samples=sub.samples)


def fails_as_committed(ctx, p, v):
    """the tree's own crate fails this case too: not the generator's doing"""
    f = os.path.join(ctx.scratch, 'replay-committed')
    open(f, 'w').write(v['case'] + '\n')
    rc, o, e = vlib.run([vlib.build('checked'), 'replay', p, f], 400)
    return rc != 0


def snapshot(d):
    out = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


def c31(ctx):
    ctx.assumptions += ['the synthetic data sets keep the committed alias vocabularies and file formats', 'the pinned tables in oracle/tables.txt are Unicode 15.1.0']
    vlib.build('checked')   # the monitors build against the tree as it is
    n = 14 if ctx.thorough else 2
    jobs = [('unicode-15.1.0', None)] + [('later-%d' % (ctx.seed * 100 + k), ctx.seed * 100 + k) for k in range(8 if ctx.thorough else 1)]
    jobs += [('synthetic-%d' % (ctx.seed * 100 + k), ctx.seed * 100 + k) for k in range(n)]
    with cf.ThreadPoolExecutor(3 if not ctx.thorough else 4) as ex:
        fs = [(j, ex.submit(dataset, ctx, j[0], j[1], 400)) for j in jobs]
        for j, f in fs:
            viols, ev = f.result()
            for c, w in viols:
                ctx.violation(c, w, 'data set ' + j[0], how='VERIF_SEED=%d python3 run.py C31 %s' % (ctx.seed, ctx.tier))
            if ev:
                ctx.count(ev['evaluations'], ev['distinct'])
                ctx.samples += ev['samples'][:6]
                ctx.stage('data set ' + j[0], generated_files_that_differ_from_the_tree=ev['files_rewritten_with_other_contents'], runs=ev['stages'])
    ctx.rule = 'one case = one code point queried in a crate whose tables the generator rebuilt from a data set (the committed one or a synthetic one), 49 properties against the data set; non-trivial = some property differs from its most common value'
    ctx.extra['data_sets'] = len(jobs)


# ---------------------------------------------------------------------- C32
def c32(ctx):
    ctx.assumptions += ['block sizes divide 0x110000 and ranges are disjoint, as the generator uses them']
    ctx.rule = 'one case = one range, ordering, default lookup or table built by the generator library; tables are compiled with the crate\'s TwoStageTable and read at every code point; non-trivial = all tables, all non-refused ranges'
    tool = os.path.join(vlib.REPO, 'tools', 'ucd-tool')
    workers = 6
    cases, tables = (4000, 40) if ctx.thorough else (600, 8)
    stats = collections.Counter()

    def worker(k):
        out = os.path.join(ctx.scratch, 'lib%d' % k)
        os.makedirs(out)
        rc, o, e = vlib.run([sys.executable, os.path.join(vlib.HERE, 'checks', 'pylib_worker.py'), tool, str(ctx.seed * 100 + k), str(cases), str(tables), out], 800, env=dict(PYENV, VMON_PYDICT=json.dumps(dictionary.python_dictionary(vlib.REPO))), mem_gb=12)
        if rc is None:
            raise Inconclusive('the library worker did not finish')
        if rc != 0:
            return k, out, None, tail(e, 6)
        return k, out, json.load(open(os.path.join(out, 'lib.json'))), ''

    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(worker, range(workers)))
    for k, out, d, err in res:
        if d is None:
            ctx.violation('library worker seed %d' % (ctx.seed * 100 + k), 'the library cannot be used: ' + err, 'library')
            continue
        for c, w in d['fails']:
            ctx.violation(c, w, 'library', how='pylib_worker.py seed %d' % (ctx.seed * 100 + k))
        stats.update(d['stats'])
        ctx.samples += [dict(stage='library', case=s) for s in d['samples'][:3]]
    ctx.count(sum(stats.values()), sum(stats.values()) - stats['ranges refused'])
    ctx.stage('library, in Python', **{k.replace(' ', '_'): v for k, v in stats.items()})
    if ctx.viols:
        return
    # the tables, compiled
    total = tbl = 0
    for batch in ([res] if not ctx.thorough else [[x] for x in res]):
        crate = os.path.join(ctx.scratch, 'tables')
        shutil.rmtree(crate, ignore_errors=True)
        os.makedirs(os.path.join(crate, 'src'))
        mods, enums, calls, want = [], {}, [], []
        for k, out, d, _ in batch:
            for i in range(d['modules']):
                shutil.copy(os.path.join(out, 't%d.rs' % i), os.path.join(crate, 'src', 'w%d_t%d.rs' % (k, i)))
                txt = os.path.join(crate, 'src', 'w%d_t%d.rs' % (k, i))
                s = open(txt).read()
                # enum names repeat between workers
                s = re.sub(r'\bcrate::unicode::props::', 'crate::w%d::unicode::props::' % k, s)
                open(txt, 'w').write(s)
                mods.append('mod w%d_t%d;' % (k, i))
            en = ''.join('#[derive(Clone, Copy, PartialEq, Debug)] pub enum %s { %s }\n' % (t['enum'], ', '.join(d['vals'])) for t in d['tables'] if t['enum'])
            mods.append('mod w%d { pub mod unicode { pub mod props { %s } } }' % (k, en))
            for t in d['tables']:
                calls.append('dump(%d, |c| format!("{:?}", w%d_t%d::%s(c)));' % (len(want), k, t['module'], t['fn']))
                want.append((k, t))
        main = '#![allow(dead_code, non_snake_case)]\nmod collections { pub use seshat::collections::TwoStageTable; }\n%s\n' % '\n'.join(mods)
        main += '''fn dump(i: usize, f: impl Fn(u32) -> String + std::panic::RefUnwindSafe) {
    let r = std::panic::catch_unwind(|| {
        let (mut a, mut v, mut o) = (0u32, f(0), String::new());
        for c in 1..=0x110000u32 {
            let x = if c < 0x110000 { f(c) } else { String::new() };
            if x != v { o.push_str(&format!(" {}-{}={}", a, c - 1, v)); a = c; v = x; }
        }
        o
    });
    println!("T {}{}", i, r.unwrap_or_else(|_| " panicked".to_string()));
}
fn main() { std::panic::set_hook(Box::new(|_| {}));
%s
}
''' % '\n'.join(calls)
        open(os.path.join(crate, 'src', 'main.rs'), 'w').write(main)
        open(os.path.join(crate, 'Cargo.toml'), 'w').write('[package]\nname = "vmon"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nseshat-unicode = { path = "%s" }\n[workspace]\n[profile.dev]\nopt-level = 1\noverflow-checks = true\n' % vlib.REPO)
        shutil.copy(os.path.join(vlib.HERE, 'harness', 'Cargo.lock'), crate)
        rc, o, e = vlib.run(['cargo', 'run', '--offline', '--quiet'], 800, env=dict(vlib.cargo_env(vlib.REPO), CARGO_TARGET_DIR=os.path.join(ctx.scratch, 'tables-target')), cwd=crate, mem_gb=None)
        if rc is None:
            raise Inconclusive('compiling the tables did not finish')
        if rc != 0 and 'could not compile `seshat' in e:
            raise Inconclusive('the crate does not compile:\n' + tail(e, 20))
        if rc != 0:
            errs = re.findall(r'^error[^\n]*\n\s*--> [^\n]*', e, re.M)
            ctx.violation('tables of seeds %s' % [ctx.seed * 100 + x[0] for x in batch], 'the generated tables do not compile or run: %s' % ('; '.join(errs[:3]) or tail(e, 10)), 'tables')
            return
        seen = {}
        for l in o.splitlines():
            if l.startswith('T '):
                w = l.split(' ')
                seen[int(w[1])] = w[2:]
        for i, (k, t) in enumerate(want):
            w = ['%d-%d=%s' % tuple(x) for x in t['runs']]
            total += 0x110000
            tbl += 1
            if seen.get(i) != w:
                g = seen.get(i) or ['nothing']
                j = next((j for j in range(max(len(g), len(w))) if j >= len(g) or j >= len(w) or g[j] != w[j]), 0)
                ctx.violation(t['case'], 'the compiled table disagrees with flat lookup: run %d is %s, flat lookup has %s' % (j, g[j] if j < len(g) else 'missing', w[j] if j < len(w) else 'none'), 'tables',
                              how='pylib_worker.py seed %d' % (ctx.seed * 100 + k))
    ctx.count(total, total)
    ctx.stage('tables compiled and read at every code point', tables=tbl, lookups=total)


# ---------------------------------------------------------------------- C33
def rust(ctx, name, src):
    """compile and run one file; -> (ok, stdout or errors)"""
    f = os.path.join(ctx.scratch, re.sub(r'\W', '_', name) + '.rs')
    open(f, 'w').write(src)
    rc, o, e = vlib.run(['rustc', '--edition', '2021', '-Copt-level=0', '-Cdebug-assertions=on', '-Aunused', '-o', f[:-3], f], 400, mem_gb=None)
    if rc != 0:
        return False, 'does not compile: ' + '; '.join(re.findall(r'^error[^\n]*', e, re.M)[:4])
    rc, o, e = vlib.run([f[:-3]], 120)
    os.unlink(f[:-3])
    return rc == 0, o if rc == 0 else 'ended with ' + vlib.died(rc)


def variants(txt):
    """the names an enum declares, comments aside"""
    m = re.search(r'enum\s+\w+\s*\{(.*?)\}', re.sub(r'//[^\n]*', '', txt), re.S)
    return [v.strip() for v in m.group(1).split(',') if v.strip()] if m else []


def synth_aliases(r):
    """a property's alias table: distinct abbreviations that stay distinct (and
    name an identifier) in Pascal case"""
    out, low = {}, set()
    told = dictionary.python_dictionary(vlib.REPO)['words']
    pick = lambda std: r.choice(told) if told and r.random() < 0.15 else r.choice(std)
    while len(out) < r.choice([1, 5, 40, 300]):
        words = []
        for _ in range(r.randrange(1, 5)):
            words.append(pick(['CJK', 'Ext', 'Sup', 'Arabic', 'Latin', 'A', 'B', 'IPA', 'zz', 'hAns', 'Math', 'Q']) + r.choice(['', '', '', 'x', 'Q', 'ek', '2a', '3Bc', '1x2']))
        ab = '_'.join(words)
        if r.random() < 0.15:
            ab += r.choice(['_1', '_2', '9'])
        k = ab.replace('_', '').lower()
        if k in low or k in ('self',) or k[0].isdigit():
            continue
        low.add(k)
        full = '_'.join(pick(['Old', 'New', 'Extended', 'Letters', 'Supplement-1', 'Marks', 'Unified', "N'Ko", 'Forms', 'and', 'for', 'CJK', 'A', '2', '1976', 'Arabic']) for _ in range(r.randrange(1, 5)))
        full += r.choice([''] * 8 + ['2', '-B', '_1', '_A', '_Extended-Supplement-Extended-Supplement-Extended-Supplement'])
        out[ab] = ab if r.random() < 0.1 else full
    return out


def seq(r, empty=False):
    n = r.choice([0 if empty else 1, 1, 2, 3, 8, 18])
    o = []
    for _ in range(n):
        while True:
            c = r.choice([r.randrange(0x80), r.randrange(0x3000), r.randrange(0x110000), 0x22, 0x5C, 0xA, 0xD, 0, 0x7B, 0x7D, 0x10FFFF, 0x202E, 0x2028])
            if not 0xD800 <= c <= 0xDFFF:
                break
        o.append(c)
    return o


def hx(v):
    return ' '.join('%04X' % c for c in v)


def c33(ctx):
    ctx.rule = 'one case = one entry (enum value, name pair or test case) of a generated source file, compiled, dumped and compared with the data it was generated from; non-trivial = all'
    ctx.assumptions += ['data sets keep the committed file formats; the alias tables stay distinct in Pascal case']
    sets = []
    base = os.path.join(vlib.REPO, 'tools', 'ucd-tool', 'data')
    for v in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, v)):
            sets.append(('unicode-' + v, v, None))
    for k in range(20 if ctx.thorough else 3):
        sets.append(('synthetic-%d' % (ctx.seed * 100 + k), None, ctx.seed * 100 + k))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: (s[0],) + gen33(ctx, *s), sets))
    for name, fails, n, sample in res:
        for c, w in fails[:4]:
            ctx.violation('%s %s' % (name, c), w, 'data set ' + name)
        ctx.count(n, n)
        ctx.samples += [dict(stage=name, case=s) for s in sample[:3]]
        ctx.stage('data set ' + name, entries=n)


def gen33(ctx, name, version, seed):
    d = copy_tree(ctx, name, data=False)
    tool = os.path.join(d, 'tools', 'ucd-tool')
    dst = os.path.join(tool, 'data', DATA)
    src = os.path.join(vlib.REPO, 'tools', 'ucd-tool', 'data', version or DATA)
    os.makedirs(os.path.join(dst, 'auxiliary'))
    data = {f: json.load(open(os.path.join(src, f))) for f in ('PropertyValueAliases.json', 'NormalizationTest.json', 'auxiliary/GraphemeBreakTest.json')}
    if seed is not None:
        r = random.Random(seed)
        pva = dict(data['PropertyValueAliases.json'])
        pva['blk'], pva['sc'] = synth_aliases(r), synth_aliases(r)
        gb = {}
        for _ in range(r.choice([1, 20, 800])):
            cl = [seq(r) for _ in range(r.choice([1, 1, 2, 3, 9]))]
            gb[hx([c for x in cl for c in x])] = [hx(x) for x in cl]
        nt = {hx(seq(r)): {k: hx(seq(r)) for k in ('NFC', 'NFD', 'NFKC', 'NFKD')} for _ in range(r.choice([1, 20, 2000]))}
        data = {'PropertyValueAliases.json': pva, 'NormalizationTest.json': nt, 'auxiliary/GraphemeBreakTest.json': gb}
    for f, x in data.items():
        json.dump(x, open(os.path.join(dst, f), 'w'))
    fails, n, sample = [], 0, []

    def script(s):
        rc, o, e = py(s, tool, 300)
        if rc is None:
            raise Inconclusive(s + ' did not finish')
        if rc != 0:
            fails.append((s, 'fails: ' + tail(e, 3)))
            return None
        return o

    # enums and their names
    for p in ('blk', 'sc'):
        al = data['PropertyValueAliases.json'][p]
        en, nm = script('gen-%s-enum.py' % p), script('gen-%s-name.py' % p)
        if en is None or nm is None:
            continue
        vs = variants(en)
        T = p.title()
        main = '#[derive(Clone, Copy, Debug, PartialEq)]\n%s\npub struct PropertyName { pub full: &\'static str, pub abbr: &\'static str }\n%s\nfn main() { for v in [%s] { let n = %s_name(v); println!("{:?}\\t{}\\t{}", v, n.abbr, n.full); } }\n' % (
            en, nm, ', '.join('%s::%s' % (T, v) for v in vs), p)
        ok, o = rust(ctx, '%s-%s' % (name, p), main)
        if not ok:
            fails.append((p, 'the generated enum and its names: ' + o))
            continue
        got = {}
        for l in o.splitlines():
            v, a, f = l.split('\t')
            got[v] = (a, f)
        n += len(got)
        sample.append('%s: %s' % (p, list(got.items())[:2]))
        want = {k.replace('_', '').lower(): (k, f) for k, f in al.items()}
        low = {v.lower(): x for v, x in got.items()}
        for k in sorted(set(want) | set(low)):
            if want.get(k) != low.get(k):
                fails.append(('%s %s' % (p, k), 'the generated value is named %s, the data has %s' % (low.get(k), want.get(k))))
        if len(got) != len(al) or len(vs) != len(al):
            fails.append((p, '%d values generated from %d aliases' % (len(vs), len(al))))
        if version == DATA:
            # the committed enum is the one these names are for
            main = 'use seshat::unicode::props::%s;\npub struct PropertyName { pub full: &\'static str, pub abbr: &\'static str }\n%s\nfn main() {}\n' % (T, nm)
            f = os.path.join(ctx.scratch, 'fit-%s' % p)
            os.makedirs(f + '/src')
            open(f + '/src/main.rs', 'w').write('#![allow(dead_code)]\n' + main)
            open(f + '/Cargo.toml', 'w').write('[package]\nname = "vmon"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nseshat-unicode = { path = "%s" }\n[workspace]\n' % vlib.REPO)
            shutil.copy(os.path.join(vlib.HERE, 'harness', 'Cargo.lock'), f)
            rc, o, e = vlib.run(['cargo', 'check', '--offline', '--quiet'], 400, env=dict(vlib.cargo_env(vlib.REPO), CARGO_TARGET_DIR=os.path.join(ctx.scratch, 'fit-target')), cwd=f, mem_gb=None)
            if rc != 0 and 'could not compile `seshat' in e:
                raise Inconclusive('the crate does not compile:\n' + tail(e, 20))
            if rc != 0:
                fails.append((p, 'the generated names do not fit the crate\'s %s: %s' % (T, '; '.join(re.findall(r'^error[^\n]*', e, re.M)[:3]))))
            n += 1
    # test case tables
    if script('gen-grapheme-break-test.py') is not None:
        f = os.path.join(d, 'tests', 'grapheme_break_test_cases.rs')
        got = dump(ctx, fails, name + '-gb', f, 'for (s, c) in TEST_CASES { println!("{}\\t{}", h(s), c.iter().map(|x| h(x)).collect::<Vec<_>>().join("\\t")); }')
        if got is not None:
            want = collections.Counter('\t'.join([k] + v) for k, v in data['auxiliary/GraphemeBreakTest.json'].items())
            n += diff(fails, 'grapheme break test', got, want)
    if script('gen-normalization-test.py') is not None:
        f = os.path.join(d, 'tests', 'normalization_test_cases.rs')
        got = dump(ctx, fails, name + '-nt', f, 'for (s, a, b, c, d) in TEST_CASES { println!("{}\\t{}\\t{}\\t{}\\t{}", h(s), h(a), h(b), h(c), h(d)); }')
        if got is not None:
            want = collections.Counter('\t'.join([k, v['NFC'], v['NFD'], v['NFKC'], v['NFKD']]) for k, v in data['NormalizationTest.json'].items())
            n += diff(fails, 'normalization test', got, want)
            sample.append('normalization test %s' % list(want)[0])
    shutil.rmtree(d, ignore_errors=True)
    return fails, n, sample


def dump(ctx, fails, name, f, body):
    if not os.path.exists(f):
        fails.append((os.path.basename(f), 'the generator ends without writing it'))
        return None
    ok, o = rust(ctx, name, open(f).read() + '\nfn h(s: &str) -> String { s.chars().map(|c| format!("{:04X}", c as u32)).collect::<Vec<_>>().join(" ") }\nfn main() { %s }\n' % body)
    if not ok:
        fails.append((os.path.basename(f), o))
        return None
    return collections.Counter(o.splitlines())


def diff(fails, what, got, want):
    for k in list((want - got))[:2]:
        fails.append(('%s %s' % (what, k.replace('\t', ' | ')), 'this entry of the data is not in the generated table'))
    for k in list((got - want))[:2]:
        fails.append(('%s %s' % (what, k.replace('\t', ' | ')), 'this entry of the generated table is not in the data'))
    return sum(want.values())


# ---------------------------------------------------------------------- C34
LIMITS = (12.0, 10.0)


def section(name):
    """the lines of a pinned property"""
    lines = open(os.path.join(vlib.HERE, 'oracle', 'tables.txt')).read().split('@prop %s\n' % name, 1)[1]
    return lines.split('\n@', 1)[0].splitlines()


OPS34 = dict(ccc=['nfc', 'nfkd'], dt=['nfkd', 'nfkc'], gc=['all'], gcb=['seg'], incb=['seg'], sc=['all'], wb=['seg'], insc=['seg'])


def units34(r):
    """{(property value): units of a text of it}; a mark follows a letter, so that runs of marks stay short"""
    ccc, o = {}, {}
    for name in ('ccc', 'dt', 'gc', 'gcb', 'incb', 'sc', 'wb', 'insc'):
        for l in section(name):
            v, *rs = l.split(' ')
            if v == 'default' or not rs:
                continue
            pick = set()
            spans = [tuple(int(x, 16) for x in (a + '-' + a).split('-')[:2]) for a in rs]
            for a, b in spans if len(spans) < 60 else r.sample(spans, 60):
                pick |= {a, b, r.randint(a, b)}
            pick = sorted(c for c in pick if not 0xD800 <= c < 0xE000)
            if name == 'ccc':
                ccc.update((c, v) for a, b in spans for c in range(a, b + 1))
            if pick:
                o[name, v] = ','.join('61+%X' % c if c in ccc and name not in ('gcb', 'incb') else '%X' % c for c in r.sample(pick, min(len(pick), 60)))
    return o


def literals34(r, units):
    d = dict(p.split('=', 1) for p in dictionary.rust_dictionary(vlib.REPO).split(';') if p)
    cs = [int(x, 16) for x in d.get('c', '').split(',') if x]
    cs = [c for c in cs if c < 0x110000 and not 0xD800 <= c < 0xE000]
    if not cs:
        return {}
    marks = set()
    for l in section('ccc'):
        for a in l.split(' ')[1:]:
            a, b = (a + '-' + a).split('-')[:2] if not l.startswith('default') else ('1', '0')
            marks |= set(range(int(a, 16), int(b, 16) + 1))
    cs = cs if len(cs) <= 6 else r.sample(cs, 6)
    one = lambda c: '61+%X' % c if c in marks else '%X' % c
    out = {('text', 'U+%04X' % c): one(c) for c in cs}
    out['text', 'all'] = ','.join(one(c) for c in cs)
    out['text', 'pairs'] = ','.join('%s+%X' % (one(a), b) for a in cs[:4] for b in cs[:4])
    for m in [c for c in cs if c in marks][:2]:
        for b in (0x3041, 0x304B, 0xAC00, 0x915, 0xE40, 0x1100, 0x1F600, 0x20):
            out['text', 'U+%04X U+%04X' % (b, m)] = '%X+%X' % (b, m)
    return out


def c34(ctx):
    ctx.rule = 'one case = one (operation, kind of text): instructions executed (counted by valgrind) for N and 8 N units beyond those for none; non-trivial = all; the growth must stay below %g-fold, for long texts %g-fold (8 = linear, 64 = quadratic)' % LIMITS
    ctx.assumptions += ['instructions as counted by valgrind stand for work; runs of combining marks in the normalisation kinds are bounded']
    b = vlib.build('plain')
    rc, o, e = vlib.run([b, 'work', 'kinds'], 60)
    kinds = o.split()
    if rc != 0 or not kinds:
        raise Inconclusive('vmon work kinds: ' + vlib.died(rc))
    seg_only = lambda k: k.startswith('giant') or k == 'pict-extends'
    seeds = [ctx.seed, ctx.seed + 1] if ctx.thorough else [ctx.seed]
    units = units34(random.Random(ctx.seed))
    more = [(op, k, ctx.seed) for k in units for op in OPS34[k[0]] + (['nfd', 'nfc'] if k == ('dt', 'Can') else [])]
    # characters changed code compares with (none on the original tree)
    words = literals34(random.Random(ctx.seed), units)
    units.update(words)
    more += [(op, k, ctx.seed) for k in words for op in ('all', 'nfc', 'seg')]
    jobs = [(op, k, s) for s in seeds for k in kinds for op in ('nfd', 'nfkd', 'nfc', 'nfkc', 'seg') if op == 'seg' or not seg_only(k)]

    def instr(op, k, n, s, secs):
        k = 'units:' + units[k] if isinstance(k, tuple) else k
        cmd = ['valgrind', '--tool=cachegrind', '--cache-sim=no', '--cachegrind-out-file=/dev/null', b, 'work', op, k, str(n), str(s)]
        rc, o, e = vlib.run(cmd, secs, mem_gb=None)
        m = re.search(r'I\s+refs:\s+([\d,]+)', e)
        if rc is None:
            return None
        if rc != 0 or not m or 'WORK' not in o:
            raise Inconclusive('counting %s %s %d: %s\n%s' % (op, k, n, vlib.died(rc), tail(e, 5)))
        return int(m.group(1).replace(',', ''))

    # small texts first: what is plainly quadratic shows there at once; then
    # texts so long that a mere copy of the text per character shows too
    for n1 in (500, 40000 if ctx.thorough else 8000):
        def one(j):
            op, k, s = j
            if len(ctx.viols) > 5:
                return None
            z = instr(op, k, 0, s, 300)
            t = time.time()
            x = instr(op, k, n1, s, 300)
            t = time.time() - t
            if z is None or x is None:
                return j, None, None, None
            return j, z, x, instr(op, k, 8 * n1, s, max(120, min(400, 60 * t)))

        table = []
        # texts of one value of a property each: the rarer properties at the larger scale in the thorough run only
        todo = jobs + [j for j in more if n1 == 500 or ctx.thorough or j[1][0] in ('dt', 'gcb', 'text') or j[:2] in [('nfc', ('ccc', v)) for v in ('7', '9', '10', '84', '202', '220', '230', '240')]]
        with cf.ThreadPoolExecutor(8) as ex:
            for f in cf.as_completed([ex.submit(one, j) for j in todo]):
                if f.result() is None:
                    continue
                (op, k, s), z, x, y = f.result()
                if z is None:
                    raise Inconclusive('%s of %d units of %s did not finish under the counter' % (op, n1, k))
                k = k if isinstance(k, str) else '%s=%s' % k
                case = 'text work %s %s %d seed %d' % (op, k, n1, s)
                how = 'valgrind --tool=cachegrind --cache-sim=no vmon work %s %s N %d' % (op, k, s)
                if y is None:
                    ctx.violation(case, '%d units take %d instructions; %d units did not finish in sixty times the time' % (n1, x - z, 8 * n1), 'instruction counts', how=how)
                    continue
                g = (y - z) / max(1, x - z)
                table.append((round(g, 2), op, k, x - z, y - z))
                if g > LIMITS[n1 > 500]:
                    ctx.violation(case, '%d units take %d instructions, %d units take %d: %.1f-fold work for 8-fold text' % (n1, x - z, 8 * n1, y - z, g), 'instruction counts', how=how)
        ctx.count(3 * len(table), len(table))
        table.sort(reverse=True)
        ctx.stage('instruction counts, %d and %d units' % (n1, 8 * n1), units=n1, steepest=[dict(growth=g, op=op, text=k, small=x, large=y) for g, op, k, x, y in table[:12]], operations=len(table))
        ctx.samples += [dict(stage='instruction counts', case='%s %s: %d -> %d' % (op, k, x, y)) for g, op, k, x, y in table[:3] + table[-3:]]
        if ctx.viols:
            return


# ---------------------------------------------------------------------- C35
EXPECT35 = ['Blocks', 'CompositionExclusions', 'DerivedAge', 'DerivedNormalizationProps', 'HangulSyllableType', 'NormalizationTest', 'PropertyAliases', 'PropertyValueAliases',
            'PropList', 'Scripts', 'UnicodeData', 'IndicSyllabicCategory', 'auxiliary/GraphemeBreakProperty', 'auxiliary/GraphemeBreakTest', 'auxiliary/WordBreakProperty',
            'emoji/emoji-data', 'extracted/DerivedBidiClass', 'extracted/DerivedCombiningClass', 'extracted/DerivedDecompositionType', 'extracted/DerivedGeneralCategory', 'extracted/DerivedName']
# what the stand-in prints: nothing, one line with or without an end, many lines, lines that end in CR LF
OUTPUT35 = '''
def output(args, salt):
    n = sum(map(ord, "".join(args) + salt))
    if n % 7 == 1:
        return b""
    end = "\\r\\n" if n % 5 == 2 else "\\n"
    t = '{"args": "' + " ".join(args) + '", "salt": "' + salt + '"}' + end + ("\\u00e9\\u4e2d" * 40 + end) * (n % 6 * 75)
    return (t if n % 3 else t.rstrip()).encode("utf-8")
'''
exec(OUTPUT35)
STUB = '''#!%s
import os, sys
with open(os.environ["STUB_LOG"], "a") as f:
    f.write("%%s\\t%%s\\n" %% (os.path.dirname(os.path.abspath(sys.argv[0])), "\\t".join(sys.argv[1:])))
seed = os.environ.get("STUB_SALT", "")
import time
time.sleep(float(os.environ.get("STUB_SLOW", "0")) * (sum(map(ord, "".join(sys.argv[1:]) + seed)) %% 5))
%s
sys.stdout.buffer.write(output(sys.argv[1:], seed))
'''


# what the name of the converter's directory ends in
ODD35 = [' of mine', "'s", '$HOME', '=2', '-\u00e9\u4e2d', '(1);&', '"q"', '*', ' #1', '{0}', '%s', '~', '\\t', '#', '$(id)', ': b']


def c35(ctx):
    ctx.rule = 'one case = one run of the script with a recording stand-in for ucd-json: each data file must hold what the converter printed for its own source, whatever was there before; non-trivial = all'
    ctx.assumptions += ['the converter is a stand-in: which sources it is given and where its output goes is what is decided, not its JSON']
    r = random.Random(ctx.seed)
    tool0 = os.path.join(vlib.REPO, 'tools', 'ucd-tool')
    modes = ['env', 'dotenv', 'both', 'unset', 'unset-dotenv-comment']
    cases = [(m, pre) for m in modes for pre in ('no data directory', 'older files', 'longer files', 'data of other versions only')]
    if ctx.thorough:
        cases = cases * 4
    n = 0
    taken = {}
    for i, (mode, pre) in enumerate(cases):
        d = os.path.join(ctx.scratch, 'j%d' % i)
        shutil.copytree(tool0, d, ignore=lambda p, ns: [x for x in ns if p.endswith('ucd-tool/data') and re.match(r'\d', x)] + ['__pycache__', '.env'])
        bins = {}
        for b in ('real', 'other'):
            # a directory of any name; each oddity is met both in .env and in the environment
            odd = ''
            if b == 'real' and mode in ('env', 'dotenv', 'both'):
                place = 'env' if mode == 'env' else '.env'
                at, many = taken.get(place, 0), 4 if place == 'env' else 2
                taken[place] = at + many
                odd = ''.join(ODD35[(k + ctx.seed) % len(ODD35)] for k in range(at, at + many))
            bd = os.path.join(ctx.scratch, 'j%d-%s%d%s' % (i, b, r.randrange(10000), odd))
            os.makedirs(bd)
            f = os.path.join(bd, 'ucd-json')
            open(f, 'w').write(STUB % (sys.executable, OUTPUT35))
            os.chmod(f, 0o755)
            bins[b] = bd
        logf = os.path.join(ctx.scratch, 'j%d.log' % i)
        salt = 's%d' % r.randrange(10 ** 6)
        env = {'STUB_LOG': logf, 'STUB_SALT': salt, 'PYTHONIOENCODING': 'utf-8', 'LC_ALL': 'C.UTF-8', 'STUB_SLOW': '0.05' if pre != 'longer files' else '0'}
        dotenv = None
        if mode == 'env':
            env['UCD_JSON_DIR'] = bins['real']
        elif mode == 'dotenv':
            dotenv = 'UCD_JSON_DIR=%s\n' % bins['real']
        elif mode == 'both':
            dotenv = '# where ucd-json is\n\nA_B=c=d\nUCD_JSON_DIR=%s\n \n# end' % bins['real']
            env['UCD_JSON_DIR'] = bins['other']
        elif mode == 'unset-dotenv-comment':
            dotenv = '#UCD_JSON_DIR=%s\n' % bins['other']
        if dotenv:
            open(os.path.join(d, '.env'), 'w', encoding='utf-8').write(dotenv)
        data = os.path.join(d, 'data', DATA)
        targets = {t + '.json': [t + '.txt'] for t in EXPECT35}
        targets['extracted/DerivedBidiClass.missing.json'] = ['--missing', 'extracted/DerivedBidiClass.txt']
        if pre == 'data of other versions only':
            for v in r.sample(['9.0.0', '13.0.0', '14.0.0', '15.0.0', '15.1', '16.0.0', 'latest'], r.choice([1, 2, 4])):
                for t in r.sample(sorted(targets), 4):
                    os.makedirs(os.path.dirname(os.path.join(d, 'data', v, t)), exist_ok=True)
                    open(os.path.join(d, 'data', v, t), 'w').write('other version')
        elif pre != 'no data directory':
            for t in targets:
                if r.random() < 0.7:
                    os.makedirs(os.path.dirname(os.path.join(data, t)), exist_ok=True)
                    open(os.path.join(data, t), 'w').write('old' * (10 if pre == 'older files' else 200000))
        before = snapshot(os.path.join(d, 'data'))
        case = 'text gen-json-data %s, %s' % (mode, pre)
        if 'UCD_JSON_DIR' not in env:
            env['UCD_JSON_DIR'] = None
        e2 = {k: v for k, v in os.environ.items() if k != 'UCD_JSON_DIR'}
        e2.update({k: v for k, v in dict(PYENV, **env).items() if v is not None})
        # no pipe to wait for: what still runs when the script ends has not converted its source
        errf = os.path.join(ctx.scratch, 'j%d.err' % i)
        rc, o, e = vlib.run(['env', '-i'] + ['%s=%s' % kv for kv in e2.items()] + ['sh', '-c', 'exec python3 gen-json-data.py > /dev/null 2> "$0"', errf], 300, cwd=d)
        e = open(errf, errors='replace').read()
        if rc is None:
            raise Inconclusive('gen-json-data.py did not finish')
        calls = [l.split('\t') for l in open(logf).read().splitlines()] if os.path.exists(logf) else []
        after = snapshot(os.path.join(d, 'data'))
        n += 1
        how = 'VERIF_SEED=%d python3 run.py C35 %s' % (ctx.seed, ctx.tier)
        if mode.startswith('unset'):
            if rc == 0:
                ctx.violation(case, 'without UCD_JSON_DIR the script claims success', 'runs', how=how)
            if after != before or calls:
                ctx.violation(case, 'without UCD_JSON_DIR the script ran a converter or changed the data', 'runs', how=how)
        else:
            if rc != 0:
                ctx.violation(case, 'the script fails: ' + tail(e, 3), 'runs', how=how)
            for w in calls:
                if w[0] != bins['real']:
                    ctx.violation(case, 'the converter of another directory ran', 'runs', how=how)
                    break
            for t, args in targets.items():
                x = after.get(DATA + '/' + t)
                n += 1
                if x != output(args, salt):
                    ctx.violation(case + ': ' + t, 'the file does not hold what the converter printed for %s (%d bytes): %s' % (' '.join(args), len(output(args, salt)), 'there is no such file' if x is None else '%d bytes, %r' % (len(x), x[:80])), 'runs', how=how)
            extra = sorted(set(after) - set(before) - {DATA + '/' + t for t in targets})
            if extra:
                ctx.violation(case, 'other files appear in the data: %s' % extra[:3], 'runs', how=how)
            # data of other versions and foreign files stay
            for f in before:
                if f not in after or (after[f] != before[f] and f not in {DATA + '/' + t for t in targets}):
                    ctx.violation(case, 'a file that is no target changed: ' + f, 'runs', how=how)
        if len(ctx.samples) < 8:
            ctx.samples.append(dict(stage='runs', case=case, converter_calls=len(calls), exit=rc))
        shutil.rmtree(d, ignore_errors=True)
    ctx.count(n, n)
    ctx.stage('runs', runs=len(cases), files_judged=n - len(cases))


CHECKS = {'C31': c31, 'C32': c32, 'C33': c33, 'C34': c34, 'C35': c35}
