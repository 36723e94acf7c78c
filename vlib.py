"""Shared machinery of the checks: building the monitored programs from the
working tree of /repo, running them under limits, and turning what happened
into one of three verdicts (held / violated / inconclusive)."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HOST = 'x86_64-unknown-linux-gnu'


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.thorough = tier == 'thorough'
        self.viols = []          # dicts: case, what, history, stage
        self.stages = []         # evidence per stage
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.assumptions = []
        self.rule = ''
        self.extra = {}
        self.scratch = tempfile.mkdtemp(prefix='vmon-%s-' % pid, dir=scratch_root())

    def violation(self, case, what, stage='', history=(), how=''):
        self.viols.append({'case': case, 'what': what, 'history': list(history), 'stage': stage, 'how': how})

    def stage(self, name, **kw):
        self.stages.append(dict(stage=name, **kw))

    def count(self, evals, distinct):
        self.evaluations += evals
        self.distinct += distinct


def scratch_root():
    d = os.path.join(HERE, 'scratch')
    os.makedirs(d, exist_ok=True)
    return d


# ---------------------------------------------------------------- processes
def limits(mem_gb=16, cpu=None):
    def f():
        os.setsid()
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(cmd, timeout, env=None, cwd=None, mem_gb=16, cpu=None, stdin=None):
    """-> (rc or None on timeout, stdout, stderr); the whole process group goes on timeout"""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                         preexec_fn=limits(mem_gb, cpu), text=True, errors='replace',
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL)
    try:
        o, er = p.communicate(stdin, timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return None, o, er


def cargo_env(repo):
    # the dictionary is compiled into the monitors, so that every run of them has the same
    from checks import dictionary
    return {'VMON_DICT': dictionary.rust_dictionary(repo), 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'RUST_BACKTRACE': '0'}


def harness_dir(repo):
    """The harness crate, or a copy of it whose dependency is another tree."""
    if repo == '/repo':
        return os.path.join(HERE, 'harness')
    d = os.path.join(repo, '.vmon-harness')
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, 'harness'))
        src = os.path.join(HERE, 'harness')
        shutil.copytree(os.path.join(src, 'src'), os.path.join(d, 'harness', 'src'))
        shutil.copytree(os.path.join(HERE, 'oracle'), os.path.join(d, 'oracle'))
        shutil.copy(os.path.join(src, 'Cargo.lock'), os.path.join(d, 'harness'))
        t = open(os.path.join(src, 'Cargo.toml')).read().replace('path = "/repo"', 'path = "%s"' % repo)
        open(os.path.join(d, 'harness', 'Cargo.toml'), 'w').write(t)
    return os.path.join(d, 'harness')


def build(profile='checked', repo=None, sanitizer=None, toolchain=None, target_dir=None):
    """Builds vmon; returns the binary's path.  Raises Inconclusive when it
    cannot be built (an error of the environment or an API that is gone)."""
    repo = repo or REPO
    h = harness_dir(repo)
    tdir = target_dir or os.path.join(h, 'target' + ('-' + sanitizer if sanitizer else ''))
    cmd, env = ['cargo'], cargo_env(repo)
    if sanitizer:
        cmd.append('+nightly')
        env['RUSTFLAGS'] = '-Zsanitizer=%s' % sanitizer + (' -Zsanitizer-memory-track-origins' if sanitizer == 'memory' else '')
    cmd += ['build', '--offline', '--locked', '--quiet', '--profile', profile]
    if sanitizer:
        cmd += ['--target', HOST]
        if sanitizer in ('thread', 'memory'):
            cmd.append('-Zbuild-std')
    env['CARGO_TARGET_DIR'] = tdir
    rc, o, e = run(cmd, 800, env=env, cwd=h, mem_gb=None)
    if rc != 0:
        raise Inconclusive('building the monitors (%s%s) failed:\n%s' % (profile, ' ' + sanitizer if sanitizer else '', '\n'.join((o + e).splitlines()[-60:])))
    return os.path.join(tdir, HOST if sanitizer else '', profile, 'vmon')


# ---------------------------------------------------------------- vmon runs
def died(rc):
    if rc is None:
        return 'timeout'
    if rc < 0:
        try:
            return 'killed by ' + signal.Signals(-rc).name
        except ValueError:
            return 'killed by signal %d' % -rc
    if rc == 70:
        return 'no answer within the CPU budget of one case'
    return 'exit %d' % rc


def vmon(ctx, binary, pid, stage, secs, tier=None, env=None, mem_gb=16, threads=8, retry=True, slice=0):
    """One monitored run.  Violations and coverage go to ctx."""
    slots = os.path.join(ctx.scratch, 'slots-' + re.sub(r'\W', '', stage))
    out = slots + '.json'
    tier = tier or ctx.tier
    if os.path.exists(out):
        os.unlink(out)
    cmd = [binary, 'run', pid, '--tier', tier, '--seed', str(ctx.seed), '--threads', str(threads),
           '--secs', str(secs), '--slots', slots, '--out', out] + (['--slice', str(slice)] if slice else [])
    t = time.time()
    rc, o, e = run(cmd, secs + 360, env=env, mem_gb=mem_gb)
    if rc in (0, 1) and os.path.exists(out):
        d = json.load(open(out))
        ctx.count(d['evaluations'], d['distinct_nontrivial'])
        ctx.rule = ctx.rule or d['rule']
        ctx.samples += [dict(stage=stage, **s) for s in d['samples'][:14]]
        ctx.stage(stage, evaluations=d['evaluations'], distinct_nontrivial=d['distinct_nontrivial'], observations=d['observations'],
                  exhaustive_over=d['exhaustive_over'], cut_short_by_time=d['truncated'], monitor_events=d['tags'], phases=d['phases'],
                  seconds=round(time.time() - t, 1))
        if d['evaluations'] == 0 or d['observations'] == 0:
            raise Inconclusive('the monitors observed nothing in stage ' + stage)
        for v in d['violations']:
            ctx.violation(v['case'], v['what'], stage, v['history'], ' '.join(cmd))
        if rc == 1 and not d['violations']:
            raise Inconclusive('vmon exit 1 without a violation')
        return d
    # the process ended abnormally: find the case that ended it
    why = died(rc)
    log('stage %s: monitored process ended: %s' % (stage, why))
    log('\n'.join(e.splitlines()[-15:]))
    rs = run([binary, 'slots', slots], 60)[1].splitlines()
    cases = [l.split('\t', 1)[1] for l in rs if '\t' in l]
    found = False
    for c in cases:
        f = slots + '-replay-case'
        open(f, 'w').write(c + '\n')
        rc2, o2, e2 = run([binary, 'replay', pid, f], 400, env=env, mem_gb=mem_gb, cpu=120 if len(c) < 20000 else 330)
        if rc2 == 1 and 'FAIL ' in o2:
            ctx.violation(c, o2.splitlines()[0].split(' :: ', 1)[-1], stage)
            found = True
        elif rc2 is not None and (rc2 < 0):
            hang = -rc2 in (signal.SIGXCPU, signal.SIGKILL)
            ctx.violation(c, 'no answer within 120 s of CPU time' if hang and why.startswith('no answer') else 'the process is %s on this case%s' % (died(rc2), san_report(e2)), stage)
            found = True
    if found:
        return None
    if rc is not None and rc < 0 and -rc != signal.SIGKILL and retry:
        # depends on history: the same seeded run again
        log('no single case reproduces it; repeating the whole stage')
        rc3, o3, e3 = run(cmd, secs + 360, env=env, mem_gb=mem_gb)
        if rc3 is not None and rc3 < 0 and -rc3 != signal.SIGKILL:
            ctx.violation('run ' + ' '.join(cmd[1:]), 'the process is %s (twice) in a seeded run, depending on history%s' % (died(rc3), san_report(e3)), stage)
            return None
    raise Inconclusive('stage %s ended abnormally (%s) and no case reproduces it' % (stage, why))


def san_report(err):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|unsafe precondition\(s\) violated: [^\n]*|Undefined Behavior: [^\n]*)', err)
    return ': ' + m.group(1)[:200] if m else ''


# ---------------------------------------------------------------- verdict
def known_findings():
    """lines: known: property=C00 <signature>   (signature = 'case :: what' prefix)
              fixed: property=C00 <commit> <what failed>"""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)', l.rstrip('\n'))
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def finish(ctx, level='exploration'):
    kf = [s for p, s in known_findings() if p == ctx.id]
    real, seen = [], []
    for v in ctx.viols:
        sig = '%s :: %s' % (v['case'], v['what'])
        k = [s for s in kf if sig.startswith(s)]
        if k:
            seen += k
        else:
            real.append(v)
    for s in dict.fromkeys(kf):
        log('KNOWN-FINDING: property=%s %s' % (ctx.id, s))
    cov = dict(evaluations=ctx.evaluations, distinct_nontrivial=ctx.distinct, rule=ctx.rule, samples=ctx.samples[:40], stages=ctx.stages, **ctx.extra)
    ev = dict(property=ctx.id, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=ctx.assumptions,
              wall_s=round(time.time() - ctx.t0, 1), violations=len(real))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', ctx.id + '.json'), 'w'), indent=1)
    if real:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s-%d.txt' % (ctx.id, ctx.tier, ctx.seed))
        with open(path, 'w') as f:
            f.write('# property %s, tier %s, seed %d\n# judge the cases again: cargo run --profile checked (in harness) -- replay %s THIS_FILE\n' % (ctx.id, ctx.tier, ctx.seed, ctx.id))
            for v in real:
                f.write('\n# %s\n' % v['what'].replace('\n', '\n# '))
                if v['stage']:
                    f.write('# stage: %s\n' % v['stage'])
                if v['how']:
                    f.write('# run: %s\n' % v['how'])
                if v['history']:
                    f.write('# asked just before, by the same worker: %s\n' % '; '.join(h[:200] for h in v['history']))
                f.write('%s\n' % v['case'])
        for v in real[:6]:
            log('  %s :: %s' % (v['case'][:200], v['what'][:500]))
        log('VIOLATION property=%s replay=%s' % (ctx.id, path))
        return 1
    log('%s held: %d cases (%d distinct non-trivial) observed in %.1f s' % (ctx.id, ctx.evaluations, ctx.distinct, time.time() - ctx.t0))
    return 0
