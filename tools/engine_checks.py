"""Checks of the engine: projects compiled under schedules of Engine.tla, and
the recorded events checked against Compile.tla (CompileTrace.tla)."""
import hashlib, json, os, random, re, shutil, subprocess, tempfile
import css, css_checks, default_checks, frame, gen, projects, vlib

LEVEL = 'model_checking'
MODES = ['pass', 'follow', 'inline']
NAMES = ['', '', '', 'base', 'case', 'accent', 'space', 'ext', 'link']
SPELLS = ['', '', '', 'dot', 'dotdot', 'rel', 'slashes']
ASSUME = ['Compile.tla says correctly what a compilation has to do',
          'the environment (Resolver, Reporter, contents through fifos) sees all that matters of a schedule']


def rng(chk, *key):
    return random.Random('%s/%d/%s' % (chk.prop, vlib.SEED, key))


# ---------------------------------------------------------------- projects
def project(kind, imp, entries, mode, **kw):
    ents = [e if isinstance(e, dict) else dict(f=e, spell='') for e in entries]
    return dict(kind=kind, imp=imp, entries=ents, mode=mode, props=kw.pop('props', True), all=kw.pop('all', False), calc=kw.pop('calc', False),
                spell=kw.pop('spell', ''), tree=kw.pop('tree', 1), alike=kw.pop('alike', False),
                names=kw.pop('names', ''))


def cfg(p):
    return dict(kind=p['kind'], imp=p['imp'], entries=[e['f'] for e in p['entries']], mode=p['mode'])


def random_project(r, n=None, mode=None, bad=.25, dense=None):
    n = n or r.choice([1, 2, 2, 3, 3, 3, 4, 4, 5, 6])
    shape = r.choice(['any', 'any', 'forward', 'ring', 'ladder', 'star'])
    imp = []
    for f in range(1, n + 1):
        if shape == 'forward':
            pool = list(range(f + 1, n + 1))
        else:
            pool = list(range(1, n + 1))
        k = r.choice(dense or [0, 1, 1, 2, 2, 3])
        mine = [r.choice(pool) for _ in range(k)] if pool else []
        if shape == 'ring':
            mine = [f % n + 1] + mine[:1]
        elif shape == 'ladder':
            mine = [g for g in (f + 1, f + 1, f + 2) if g <= n][:r.choice([1, 2, 3])]
        elif shape == 'star':
            mine = list(range(2, n + 1)) if f == 1 else r.choice([[], [1], [n]])
        imp.append([0 if r.random() < bad / 3 else g for g in mine])
    kind = [r.choice(['missing', 'broken', 'broken', 'missing', 'warn']) if r.random() < bad else r.choice(['ok', 'ok', 'warn'])
            for _ in range(n)]
    for f in range(n):
        if kind[f] in ('missing', 'broken'):
            imp[f] = []
    entries = [dict(f=r.randint(1, n) if i else 1, spell=r.choice(SPELLS)) for i in range(r.choice([1, 1, 2, 2, 3, 4]))]
    r.shuffle(entries)
    every = r.random() < .3
    return project(kind, imp, entries, mode or r.choice(MODES), props='warn' in kind or r.random() < .5,
                   all=every, calc=every and r.random() < .7, spell=r.choice(SPELLS), alike=r.random() < .3, names=r.choice(NAMES))


def small_projects(kinds=('ok', 'warn', 'missing', 'broken'), most=2):
    """What Engine.tla calls Two: all projects of up to two files with up to two imports each."""
    import itertools
    seqs = [list(s) for k in range(most + 1) for s in itertools.product(range(3), repeat=k)]
    for kind in itertools.product(kinds, repeat=2):
        for i1, i2 in itertools.product(seqs, seqs):
            if kind[0] in ('missing', 'broken') and i1 or kind[1] in ('missing', 'broken') and i2:
                continue
            for entries in ([1], [1, 2], [1, 1]):
                if entries != [1, 2] and 2 not in i1 and (kind[1] != 'ok' or i2):
                    continue
                for mode in MODES:
                    yield project(list(kind), [i1, i2], entries, mode)


def large_projects(chk):
    """Chains, fans and crowds that are larger than any limit of the engine."""
    out = []
    for n, fifo in ((100, True), (chk.scale(150, 600), False)):
        chain = [[f + 1] if f < n else [] for f in range(1, n + 1)]
        ring = [[f % n + 1] for f in range(1, n + 1)]
        fan = [list(range(2, n + 1))] + [[] for _ in range(n - 1)]
        gather = [list(range(2, n + 1))] + [[1] for _ in range(n - 1)]
        for name, imp in (('chain', chain), ('ring', ring), ('fan', fan), ('gather', gather)):
            mode = 'pass' if name == 'chain' and n > 100 else 'inline'
            out.append((name, project(['ok'] * n, imp, [1], mode), fifo))
        kinds = ['ok'] + ['missing' if f % 3 else 'broken' for f in range(n - 1)]
        out.append(('failing fan', project(kinds, fan, [1], 'follow'), fifo))
        out.append(('nothing resolves', project(['ok'], [[0] * n], [1, 1], 'inline', alike=n > 100), fifo))
        out.append(('same import', project(['ok', 'ok'], [[2] * n, []], [1], 'inline'), fifo))
        out.append(('entries', project(['ok'] * n, [[] for _ in range(n)], list(range(1, n + 1)), 'pass'), fifo))
    # Entries that are still being added when imports of others are found, and the other way around.
    for i in range(6):
        n = 3 + i
        imp = [list(range(2, n + 1)) if i % 2 else [2]] + [[f + 1] if f < n else [] for f in range(2, n + 1)]
        entries = [1] + [dict(f=1, spell='rel')] * (2000 * (1 + i % 3)) + list(range(2, n + 1))
        out.append(('slow entries', project(['ok'] * n, imp, entries, ('inline', 'follow')[i % 2 and i > 2]), False))
    k = 7
    ladder = [[f + 1, f + 1] if f < k else [] for f in range(1, k + 1)]
    out.append(('ladder', project(['ok'] * k, ladder, [1], 'inline'), True))
    clique = [[g for g in range(1, 6)] for f in range(1, 6)]
    out.append(('clique', project(['ok'] * 5, clique, [1, 3], 'inline'), False))
    out.append(('clique', project(['ok'] * 5, clique, [1, 2, 3, 4, 5], 'follow'), True))
    return out


# ---------------------------------------------------------------- schedules
def schedules(chk, ps, simulate=None, timeout=600):
    """{index of a project: [hints]}: all schedules, or simulated ones (about `simulate` in all)."""
    d = tempfile.mkdtemp(prefix='cssc-eng-')
    try:
        path = os.path.join(d, 'p.ndjson')
        with open(path, 'w') as f:
            for i, p in enumerate(ps):
                f.write(json.dumps(dict(id=i, cfg=cfg(p))) + '\n')
        args = []
        workers = 8
        if simulate:
            args = ['-simulate', 'num=%d' % (simulate // workers + 1), '-seed', str(vlib.SEED), '-depth', '5000']
        r = vlib.tlc('EngineSim', env={'PROJECTS': path}, args=args, workers=workers, timeout=timeout)
        if not simulate and not r.ok or simulate and 'Error' in r.out:
            raise vlib.CheckError('EngineSim: ' + r.out[-1500:])
        if simulate:
            m = re.search(r'number of states generated: (\d+)', r.out)
            r.generated = r.distinct = int(m.group(1)) if m else 0
        chk.tlc(r)
        out = {}
        for line in r.out.splitlines():
            if line.startswith('"H`'):
                _, id, h = json.loads(line).split('`')
                out.setdefault(int(id), set()).add(h)
        res = {}
        for i, hs in out.items():
            res[i] = [[dict(e=e, f=f, i=k) for e, f, k in json.loads(h)] for h in sorted(hs)]
        chk.add('schedules_derived', sum(map(len, res.values())))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- runs
def run_eng(cases, race=False, timeout=30, jobs=16):
    data = '\n'.join(json.dumps({k: c[k] for k in ('id', 'projects', 'runs')}) for c in cases) + '\n'
    p = subprocess.run([vlib.binary('eng', race), '-j', str(jobs), '-t', str(timeout)], input=data.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise vlib.CheckError('driver failed: ' + p.stderr.decode('utf-8', 'replace')[:3000])
    return [json.loads(l) for l in p.stdout.splitlines()]


ITEM = re.compile(r'\s*(?:\.(stale-)?f(\d+)-(\d+)\s*\{\s*a:\s*(v\d+|var\(\s*--undef-f\d+\s*\)|calc\(\s*1px\s*\*\s*2px\s*\))\s*;?\s*\}|@import\s+"\./f(\d+)-(?:i(\d+)|none)"\s*;|(/\*.*?\*/))', re.S)


def items(p, text):
    out, at, last = [], 0, {}
    while at < len(text):
        m = ITEM.match(text, at)
        if not m:
            if not text[at:].strip():
                break
            return out + [['junk', 0, 0]]
        at = m.end()
        if m.group(7):
            continue
        if m.group(5):
            f = int(m.group(5))
            # The k-th import follows the rule before it.
            out.append(['import', f, int(m.group(6) or last.get(f, -1) + 1)])
            continue
        f, k = int(m.group(2)), int(m.group(3))
        last[f] = k
        v = m.group(4)
        want = 'v%d' % f
        if 0 < f <= len(p['kind']) and p['kind'][f - 1] == 'warn' and k == 0:
            want = 'calc(' if p['calc'] and f % 2 == 0 else 'var('
        ok = v.startswith(want) if want[0] != 'v' or want == 'var(' else v == want
        out.append(['rule', f, k] if ok and not m.group(1) else ['junk', f, k])
    return out


def outs(p, got):
    res = []
    for path, text in sorted(got.items()):
        f = int(path) if path.isdigit() else 0
        rules, _ = vlib.split_map(vlib.unb64(text))
        res.append(dict(f=f, items=items(p, rules.decode('utf-8', 'replace'))))
    return res


def digest(t):
    return hashlib.sha1(json.dumps([sorted(t['outs'].items()), sorted(t['errs'] or [])]).encode()).hexdigest()


RULES = {
    'C01': {'noreturn'}, 'C02': {'outputs', 'resolve', 'unclaimed'}, 'C03': {'differ'}, 'C04': {'twice', 'dropped', 'spurious'},
    'C05': {'overlap', 'late'}, 'C06': {'reread', 'content'}, 'C09': {'content', 'outputs'},
    'C10': {'outputs', 'resolve', 'resolved-again', 'unclaimed', 'differ', 'twice', 'dropped', 'spurious', 'reread', 'content', 'late', 'overlap', 'noreturn'},
}


def check(chk, cases, race=False, need=None, timeout=30, batch=400, tlc_timeout=800):
    """cases: [{id, projects, runs}]. Runs them, and has TLC check the traces."""
    need = need or RULES[chk.prop]
    for at in range(0, len(cases), batch):
        part = cases[at:at + batch]
        results = run_eng(part, race, timeout)
        recs, info = [], {}
        for c, res in zip(part, results):
            for k, got in enumerate(res['runs']):
                bad = got['status']
                if bad == 'timeout' or bad == 'crash' and k and res['runs'][k - 1]['status'] == 'hang':
                    again = run_eng([dict(c, runs=[c['runs'][k]])], race, 2 * timeout, 1)[0]['runs'][0]
                    bad = again['status']
                if bad == 'ok':
                    continue
                chk.add('runs_' + bad)
                if bad == 'race':
                    if chk.prop in ('C05', 'C10'):
                        chk.violation('case %s run %d: data race: %s' % (c['id'], k, got['detail'][:1500]), case=c, run=k, detail=got['detail'])
                elif chk.prop in ('C01', 'C10'):
                    chk.violation('case %s run %d: %s %s\nprojects: %s\nrun: %s' % (c['id'], k, bad, got.get('detail', '')[:800], c['projects'], c['runs'][k]),
                                  case=c, run=k, detail=got.get('detail'))
            traces, where = [], []
            for k, got in enumerate(res['runs']):
                if got['status'] != 'ok':
                    continue
                for t in got['traces']:
                    p = c['projects'][t['p'] - 1]
                    traces.append(dict(p=t['p'], fifo=c['runs'][k]['fifo'], events=t['events'] or [], outs=outs(p, t['outs'] or {}), print=digest(t)))
                    where.append((k, t))
                    chk.add('hints_skipped', t['skips'])
                    chk.add('events', len(t['events'] or []))
            if traces:
                recs.append(dict(id=c['id'], projects=[cfg(p) for p in c['projects']], traces=traces))
                info[c['id']] = (c, where)
        if not recs:
            continue
        d = tempfile.mkdtemp(prefix='cssc-tr-')
        try:
            path = os.path.join(d, 't.ndjson')
            with open(path, 'w') as f:
                for x in recs:
                    f.write(json.dumps(x) + '\n')
            r = vlib.tlc('CompileTrace', env={'CASES': path}, timeout=tlc_timeout, stack='256m')
            want = sum(len(t['events']) + 2 for x in recs for t in x['traces'])
            if not r.ok or r.distinct != want:
                raise vlib.CheckError('CompileTrace: %d of %d states\n%s' % (r.distinct, want, r.out[-2500:]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        chk.tlc(r)
        chk.add('traces_validated_against_impl', sum(len(x['traces']) for x in recs))
        for line in vlib.unwrap(r.out):
            m = re.match(r'<<"MISMATCH", "([^"]*)", (\d+), \{(.*)\}>>', line)
            if not m:
                continue
            verdicts = set(re.findall(r'"([\w-]+)"', m.group(3)))
            if not verdicts & need:
                continue
            c, where = info[m.group(1)]
            k, t = where[int(m.group(2)) - 1]
            chk.violation('case %s run %d: %s\nproject: %s\nevents: %s\noutputs: %s\nerrors: %s' % (
                c['id'], k, sorted(verdicts), c['projects'][t['p'] - 1],
                ' '.join('%s%s(%d,%d)' % (e['e'], ':' + e['k'] if e['k'] else '', e['f'], e['i']) for e in t['events']),
                outs(c['projects'][t['p'] - 1], t['outs'] or {}), t['errs']), case=dict(c, runs=[c['runs'][k]]), verdicts=sorted(verdicts))
        for c in part[:1]:
            chk.sample(dict(projects=[cfg(p) for p in c['projects']], run=c['runs'][0]), most=3)


def alone(hints, fifo=True, jump=False):
    return dict(fifo=fifo, compiles=[dict(p=1, hints=hints, jump=jump)])


def small(chk, n, per, name='s', keep=lambda p: True):
    """Small projects: every order the environment can act in, a sample of them replayed."""
    ps = [p for p in small_projects() if keep(p)]
    chk.add('small_projects', len(ps))
    r = rng(chk, name)
    if len(ps) > n:
        ps = r.sample(ps, n)
    hs = schedules(chk, ps)
    cases = []
    for i, p in enumerate(ps):
        mine = hs.get(i, [])
        runs = [alone(h) for h in (mine if len(mine) <= per else r.sample(mine, per))]
        if runs:
            cases.append(dict(id='%s%d' % (name, i), projects=[p], runs=runs))
            chk.add('replayed', len(runs))
    return cases


def drawn(chk, n, per, name='p', make=None, plain=1):
    """Random projects under simulated schedules (and `plain` runs without gates)."""
    ps = [(make or random_project)(rng(chk, name, i)) for i in range(n)]
    hs = schedules(chk, ps, simulate=n * per)
    cases = []
    for i, p in enumerate(ps):
        runs = [alone(h) for h in hs.get(i, [])[:per + 2]]
        runs += [alone([], fifo=False, jump=True) for _ in range(plain)]
        runs.append(alone([]))
        cases.append(dict(id='%s%d' % (name, i), projects=[p], runs=runs))
        chk.add('replayed', len(runs))
    return cases


def large(chk):
    return [dict(id='%s%d' % (name.replace(' ', '-'), i), projects=[p], runs=[alone([], fifo, not fifo)])
            for i, (name, p, fifo) in enumerate(large_projects(chk))]


def begin(prop, design=True):
    chk = frame.Check(prop, LEVEL)
    chk.assumptions = ASSUME
    if design and frame.SCALE >= 1:
        r = vlib.tlc('Engine', cfg='Engine.cfg' if chk.thorough else 'EngineQuick.cfg', timeout=3000)
        if not r.ok:
            raise vlib.CheckError('Engine: ' + r.out[-2000:])
        chk.tlc(r)
        chk.cov['design_states'] = r.distinct
    return chk


def bombs():
    """Projects that are exponentially larger when imports are inlined: too large for any computer."""
    def doubling(n, leaf, top=''):
        f = {'a.css': top + '@import "./i0.css";', 'i%d.css' % n: leaf}
        for i in range(n):
            f['i%d.css' % i] = '@import "./i%d.css";@import "./i%d.css";' % (i + 1, i + 1)
        return f
    dense = {'i%d.css' % i: ''.join('@import "./i%d.css";' % j for j in range(24) if j != i) + 'a%d{b:c}' % i for i in range(24)}
    yield 'doubling', doubling(44, 'a{b:c}')
    yield 'doubling, empty', doubling(44, '')
    yield 'doubling, large', doubling(26, 'a{b:"' + '\\x' * 200000 + '"}')
    yield 'doubling, comments', doubling(26, '/*' + 'x' * 500000 + '*/')
    yield 'dense', dict(dense, **{'a.css': '@import "./i0.css";'})


def c01(prop):
    chk = begin(prop)
    css_checks.total(chk, [(k, f, o, 'inline') for k, f in bombs() for o in (vlib.opts(), vlib.opts(*css_checks.OPTS))], must=True)
    css_checks.total(chk, [(k, f, vlib.opts(), 'pass') for k, f in bombs()])
    check(chk, large(chk), timeout=60)
    check(chk, small(chk, chk.scale(150, 4000), chk.scale(4, 12)))
    check(chk, drawn(chk, chk.scale(250, 4000), 3, make=lambda r: random_project(r, dense=[1, 2, 3])))
    return chk.finish()


def c02(prop):
    chk = begin(prop)
    check(chk, small(chk, chk.scale(200, 4000), chk.scale(3, 12)))
    check(chk, drawn(chk, chk.scale(350, 5000), 3))
    check(chk, large(chk), timeout=60)
    return chk.finish()


def bad_project(r):
    return random_project(r, bad=.6)


def c04(prop):
    chk = begin(prop)
    check(chk, small(chk, chk.scale(200, 4000), chk.scale(3, 12)))
    check(chk, drawn(chk, chk.scale(300, 5000), 3, make=bad_project))
    check(chk, large(chk), timeout=60)
    default_checks.gone(chk)
    return chk.finish()


def c06(prop):
    chk = begin(prop)
    check(chk, small(chk, chk.scale(200, 4000), chk.scale(3, 12)))
    check(chk, drawn(chk, chk.scale(350, 5000), 4, make=lambda r: random_project(r, bad=.1, dense=[1, 2, 2, 3])))
    # Files that have the same content are still different files.
    cases = []
    for i in range(chk.scale(200, 4000)):
        r = rng(chk, 'copies', i)
        mode = MODES[i % 3]
        o = r.choice(css_checks.allopts())
        p = projects.copied(r, projects.project(r, css_checks.feats_for(o), conds=False if mode == 'inline' else None))
        names = sorted({n for m in p.files if r.random() < .5 for n in (m, 'zz/' + m if not m.startswith('zz/') else m)} | {'main.css', 'zz/main.css'})
        entries = list(names)
        r.shuffle(entries)
        cases.append((dict(id='copies%d' % i, files=p.files, runs=[css.run(entries, o, mode)] + [css.run(n, o, mode) for n in names]), names))
    others(chk, cases)
    return chk.finish()


def c05(prop):
    chk = begin(prop)
    noisy = lambda p: sum(k != 'ok' for k in p['kind']) + sum(i.count(0) for i in p['imp']) >= 2
    check(chk, small(chk, chk.scale(150, 3000), chk.scale(3, 10), keep=noisy))
    check(chk, drawn(chk, chk.scale(200, 4000), 3, make=lambda r: random_project(r, n=r.choice([3, 4, 5, 6]), bad=.6)))
    # the same with the race detector: the Reporter does not synchronize
    races = drawn(chk, chk.scale(60, 800), 2, name='race', make=lambda r: random_project(r, n=r.choice([4, 5, 6]), bad=.6), plain=4)
    check(chk, races, race=True, timeout=60)
    return chk.finish()


def c03(prop):
    chk = begin(prop)
    check(chk, small(chk, chk.scale(150, 3000), chk.scale(5, 16), keep=lambda p: any(p['imp'])))
    check(chk, drawn(chk, chk.scale(200, 4000), 6, plain=3))
    # richer contents: byte for byte the same, over and over
    cases = []
    for i in range(chk.scale(250, 4000)):
        r = rng(chk, 'rich', i)
        mode = MODES[i % 3]
        o = r.choice(css_checks.allopts())
        p = projects.project(r, css_checks.feats_for(o), conds=False if mode == 'inline' else None, files=(3, 4, 5))
        entries = ['main.css'] + [f for f in p.files if f != 'main.css' and r.random() < .3]
        cases.append(dict(id='rich%d' % i, files=p.files, runs=[css.run(entries, o, mode) for _ in range(8)]))
    same(chk, cases, 'runs differ')
    return chk.finish()


def deterministic(chk, recs):
    d = tempfile.mkdtemp(prefix='cssc-same-')
    try:
        path = os.path.join(d, 'r.ndjson')
        with open(path, 'w') as f:
            for x in recs:
                f.write(json.dumps(x) + '\n')
        r = vlib.tlc('Deterministic', env={'CASES': path})
        if not r.ok:
            raise vlib.CheckError('Deterministic: ' + r.out[-1500:])
        chk.tlc(r)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    chk.add('traces_validated_against_impl', sum(len(x['prints']) for x in recs))
    return set(re.findall(r'^<<"MISMATCH", "([^"]+)"', r.out, re.M))


def show(res):
    return [(x['status'], sorted(x['errs']), {k: vlib.split_map(v)[0] for k, v in x['outs'].items()}) for x in res['runs']]


def fingerprint(*data):
    return hashlib.sha1(repr(data).encode()).hexdigest()


def same(chk, cases, what, race=False):
    """Runs of a case that have the same key come out alike: outputs byte for byte, errors as a multiset."""
    results = vlib.drv([css.to_drv(c) for c in cases], race=race, timeout=60 if race else 20)
    recs = []
    for c, res in zip(cases, results):
        prints = []
        for r, got in zip(c['runs'], res['runs']):
            if got['status'] == 'race':
                chk.violation('case %s: data race: %s' % (c['id'], got['detail'][:1500]), case=css.to_drv(c))
            prints.append(dict(key=str(r.get('key', '')), print=fingerprint(sorted(got['outs'].items()), sorted(got['errs']), got['status'])))
        recs.append(dict(id=c['id'], prints=prints))
        chk.add('programs')
    bad = deterministic(chk, recs)
    for c, res in zip(cases, results):
        if c['id'] in bad:
            chk.violation('case %s: %s\nfiles: %s\nruns: %s\nresults: %s' % (c['id'], what, c['files'], c['runs'], show(res)), case=css.to_drv(c))
    for c in cases[:1]:
        chk.sample(dict(files=c['files'], runs=len(c['runs'])), most=4)


def c09(prop):
    chk = begin(prop)
    fails = lambda p: any(k in ('missing', 'broken') for k in p['kind']) or any(0 in i for i in p['imp'])
    check(chk, small(chk, chk.scale(150, 3000), chk.scale(3, 10), keep=fails))
    check(chk, drawn(chk, chk.scale(250, 4000), 3, make=bad_project))
    # An output is the same with the other entries and without them.
    cases = []
    for i in range(chk.scale(300, 5000)):
        r = rng(chk, 'rich', i)
        mode = MODES[i % 3]
        o = r.choice(css_checks.allopts())
        p = projects.project(r, css_checks.feats_for(o), conds=False if mode == 'inline' else None, files=(3, 4, 5))
        names = [n for n in p.files if r.random() < .5] + ['main.css']
        missing = ['no.css', 'lib']
        entries = names + missing[:r.randrange(3)]
        r.shuffle(entries)
        cases.append((dict(id='rich%d' % i, files=p.files, runs=[css.run(entries, o, mode)] + [css.run(n, o, mode) for n in names]), names))
    others(chk, cases)
    return chk.finish()


def others(chk, cases):
    """Run 0 is all entries at once, the others one each: every output is the same."""
    results = vlib.drv([css.to_drv(c) for c, _ in cases])
    recs = []
    for (c, names), res in zip(cases, results):
        prints = []
        first = res['runs'][0]
        for n, got in zip(names, res['runs'][1:]):
            for g in (first, got):
                prints.append(dict(key=n, print=fingerprint(g['outs'].get(n), g['status'])))
        recs.append(dict(id=c['id'], prints=prints))
    bad = deterministic(chk, recs)
    for (c, names), res in zip(cases, results):
        chk.add('programs')
        if c['id'] in bad:
            chk.violation('case %s: an output is different with other entries\nfiles: %s\nruns: %s\nresults: %s' % (c['id'], c['files'], c['runs'], show(res)),
                          case=css.to_drv(c))


def c10(prop):
    chk = begin(prop)
    # several compilations of the same and of other trees at once: each is a behaviour of Compile, and ends like it does alone
    cases = []
    n = chk.scale(200, 3000)
    groups = []
    for i in range(n):
        r = rng(chk, i)
        ps = []
        for t in range(r.choice([1, 2, 3])):
            p = dict(random_project(r), tree=t + 1)
            ps.append(p)
            if r.random() < .5:
                q = dict(p, mode=r.choice(MODES), all=p['calc'] or r.random() < .5, spell=r.choice(SPELLS),
                         entries=[dict(f=r.randint(1, len(p['kind'])), spell=r.choice(SPELLS)) for _ in range(r.choice([1, 2]))])
                q['props'] = p['props'] or q['all']
                ps.append(q)
        groups.append(ps)
    flat = [p for ps in groups for p in ps]
    hs = schedules(chk, flat, simulate=3 * len(flat))
    at = 0
    for i, ps in enumerate(groups):
        r = rng(chk, 'run', i)
        mine = [hs.get(at + k, [[]]) for k in range(len(ps))]
        at += len(ps)
        runs = []
        for fifo in (True, False):
            if fifo and len(set(p['tree'] for p in ps)) < len(ps):
                continue            # two compilations cannot read the same fifo
            for _ in range(2):
                runs.append(dict(fifo=fifo, compiles=[dict(p=k + 1, hints=[h for h in r.choice(mine[k]) if fifo or h['e'] != 'content'], jump=False) for k in range(len(ps))]))
        twice = [k for k in range(len(ps)) for _ in range(r.choice([1, 2, 3]))]
        r.shuffle(twice)
        runs.append(dict(fifo=False, compiles=[dict(p=k + 1, hints=[], jump=True) for k in twice]))
        runs += [dict(fifo=False, compiles=[dict(p=k + 1, hints=[], jump=False)]) for k in range(len(ps))]
        cases.append(dict(id='t%d' % i, projects=ps, runs=runs))
    check(chk, cases)
    check(chk, cases[:chk.scale(40, 400)], race=True, timeout=60)
    # richer contents and all options
    for race, count in ((False, chk.scale(200, 4000)), (True, chk.scale(60, 800))):
        cases = []
        for i in range(count):
            r = rng(chk, 'rich', race, i)
            p = projects.project(r, css_checks.feats_for(vlib.opts(*css_checks.OPTS)), conds=False, files=(3, 4, 5))
            runs = []
            for k in range(r.choice([2, 3, 5])):
                entries = ['main.css'] + [f for f in p.files if f != 'main.css' and r.random() < .3]
                runs.append(dict(css.run(entries, r.choice(css_checks.allopts()), r.choice(MODES)), key=k))
            together = [dict(x, group=g + 1) for g in range(2) for x in runs + runs[:1]]
            cases.append(dict(id='rich%d%s' % (i, 'r' if race else ''), files=p.files, runs=runs + together))
        same(chk, cases, 'compilations at the same time disturb each other', race)
    return chk.finish()


REGISTRY = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C09=c09, C10=c10)
