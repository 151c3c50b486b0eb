"""Checks of the default resolver: every tree of the families of ResolverMachine.tla
and random trees, created on disk and resolved by the real resolver."""
import json, os, random, shutil, subprocess, tempfile
import frame, vlib

ASSUME = ['Resolver.tla says correctly what the documentation of the resolver means',
          'the file system of the sandbox is like the ones the resolver is used on (case sensitive, / as separator)']
NOBASE = ['?']


def rng(chk, *key):
    return random.Random('%s/%d/%s' % (chk.prop, vlib.SEED, key))


def begin(prop):
    chk = frame.Check(prop, 'model_checking')
    chk.assumptions = ASSUME
    return chk


STYLE = ['{"style":%s}', '{\n  "name": "x",\n  "main": "index.js",\n  "style": %s\n}\n', '{"style":"no","x":{"style":"y"},"style":%s}', '{"y":[{"style":"z"}], "style":%s}  ']
NONE = ['{}', '{"main":"index.css"}', '{"style":""}', '{"styles":"main.css"}', '{"name":"m","x":{"style":"index.css"}}']
BAD = ['{', '', '{"style":"index.css"', '{"style":3}', '[]', 'style: index.css', '{"style":"index.css"} x', '{"style":["index.css"]}', '{style:"index.css"}']


def content(r, n):
    if n['pkg'] == 'style':
        text = json.dumps('/'.join(n['style']))
        if r.random() < .1:
            text = '"' + ''.join('\\u%04x' % ord(c) for c in '/'.join(n['style'])) + '"'
        return r.choice(STYLE) % text
    return {'none': r.choice(NONE), 'bad': r.choice(BAD)}.get(n['pkg'], '')


def materialize(r, fs, links=False):
    """The listing of Resolver.tla as files to create; directories first."""
    tree = []
    for e in sorted(fs, key=lambda e: len(e['p'])):
        n = e['n']
        tree.append(dict(p='/'.join(e['p']), k=n['k'], text=content(r, n) if n['k'] == 'file' else '', mode=0))
    return tree


def ask(chk, cases, timeout=20):
    p = subprocess.run([vlib.binary('res'), '-t', str(timeout)], input=('\n'.join(json.dumps(c) for c in cases) + '\n').encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise vlib.CheckError('res failed: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    out = [json.loads(l) for l in p.stdout.splitlines()]
    if len(out) != len(cases):
        raise vlib.CheckError('res answered %d of %d cases' % (len(out), len(cases)))
    return out


def ask_in_root(cases):
    """The same in a root directory of its own: trees that have entries in /. None if that is not possible here."""
    d = tempfile.mkdtemp(prefix='cssc-root-')
    try:
        shutil.copy(vlib.binary('res'), os.path.join(d, 'res'))
        open(os.path.join(d, 'marker-' + os.path.basename(d)), 'w').close()
        try:
            p = subprocess.run(['unshare', '-Ur', '/usr/sbin/chroot', d, '/res', '-root', 'marker-' + os.path.basename(d)],
                               input=('\n'.join(json.dumps(c) for c in cases) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        except OSError:
            return None
        if p.returncode != 0:
            return None
        out = [json.loads(l) for l in p.stdout.splitlines()]
        return out if len(out) == len(cases) else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge(chk, q, a, want=None, case=None, missing=False):
    """What can be judged without the tree: the shape of the answer; and the result, if it is known."""
    what = None
    if a['status'] != 'ok':
        what = 'resolving ended with %s: %s' % (a['status'], a.get('detail') or a.get('err'))
    elif a['err'] and a['path']:
        what = 'both an error and the path %r' % a['path']
    elif not a['err'] and not a['path']:
        what = 'neither an error nor a path'
    elif not a['err'] and a['kind'] != 'file':
        what = '%r is not a file (%s)' % (a['path'], a['kind'])
    elif missing and a['err'] and not a['nf']:
        what = 'nothing is there, but the error is not ErrNotFound: %s' % a['err']
    elif want is not None:
        got = dict(ok=not a['err'], p=[] if a['err'] else a['rel'].split('/'))
        if got != want:
            what = 'resolved to %s instead of %s' % ('/'.join(got['p']) if got['ok'] else 'an error', '/'.join(want['p']) if want['ok'] else 'an error')
    chk.add('answers')
    if what:
        chk.violation('%s: specifier %r from %r, base %r (as %s, %s): %s\ntree: %s' %
                      (case['id'], q['spec'], q['from'], q['base'], q['fromAs'], q['baseAs'], what, case['tree']), case=case, question=q, answer=a)
    return what


SPELL = ['', '', '', 'rel', 'dotrel', 'slash', 'dots']


def question(r, x, fs=()):
    # Relative directories are relative to the working directory of the moment.
    cwds = ['', ''] + ['/'.join(e['p']) for e in fs if e['n']['k'] == 'dir']
    return dict(spec='/'.join(x['spec']), base='?' if x['base'] == NOBASE else '/'.join(x['base']), cwd=r.choice(cwds), fromAs=r.choice(SPELL), baseAs=r.choice(SPELL),
                **{'from': '/'.join(x['from'])})


def family(chk, name, root=False, most=None, shape=False):
    """All runs of ResolverMachine of a family, replayed."""
    res = vlib.tlc('ResolverMachine', env={'FAMILY': name, 'PRINT': '1'})
    if not res.ok:
        raise vlib.CheckError('ResolverMachine %s failed: %s' % (name, res.out[-2000:]))
    chk.tlc(res)
    runs = [json.loads(l[3:-1].replace('\\"', '"').replace('\\\\', '\\')) for l in res.out.splitlines() if l.startswith('"Q`')]
    if not runs:
        raise vlib.CheckError('ResolverMachine %s printed nothing' % name)
    groups = {}
    for x in runs:
        x['fs'] = [dict(p=e['p'], n=e['n']) for e in x['fs']]
        groups.setdefault(json.dumps(sorted(x['fs'], key=lambda e: e['p']), sort_keys=True), []).append(x)
    keys = sorted(groups)
    chk.add('runs_of_the_machine', len(runs))
    r = rng(chk, name)
    if most and len(keys) > most:
        keys = r.sample(keys, most)
    cases, wants = [], []
    for i, k in enumerate(keys):
        xs = sorted(groups[k], key=lambda x: json.dumps([x['spec'], x['from'], x['base']]))
        cases.append(dict(id='%s%d' % (name, i), tree=materialize(r, xs[0]['fs']), runs=[question(r, x, xs[0]['fs']) for x in xs]))
        wants.append(xs)
    got = ask_in_root(cases) if root else ask(chk, cases)
    if got is None:
        chk.cov['root_trees_skipped'] = len(cases)
        return
    for c, w, g in zip(cases, wants, got):
        if len(g['runs']) < len(c['runs']) and g['runs'][-1]['status'] == 'ok':
            raise vlib.CheckError('missing answers for ' + c['id'])
        for q, want, a in zip(c['runs'], w, g['runs']):
            judge(chk, q, a, None if shape else want['r'], c, shape and want['missing'])
    chk.add('trees', len(cases))
    chk.add('traces_validated_against_impl', sum(len(g['runs']) for g in got))
    chk.sample(dict(tree=cases[0]['tree'], question=cases[0]['runs'][0], expected=wants[0][0]['r']))


NAMES = ['m', 'm', 'm.css', 'sub', 'sub.css', 'index.css', 'package.json', 'node_modules', 'node_modules', '@s', 'a b.css', 'é', 'm.css.css', '.m', 'M']


def random_tree(r, size):
    """A listing as in Resolver.tla."""
    fs, dirs = {}, [()]
    for _ in range(size):
        d = r.choice(dirs[-6:]) if r.random() < .6 else r.choice(dirs)
        name = r.choice(NAMES)
        p = d + (name,)
        if p in fs:
            continue
        if name == 'package.json':
            k = r.random()
            style = r.choice([['m'], ['m.css'], ['.', 'sub.css'], ['index.css'], ['..', 'm'], ['sub', 'm.css'], ['sub'], ['.'], ['m', ''], ['', 'm.css'], ['package.json'], ['..', '..', 'm.css']])
            fs[p] = dict(k='file', pkg='style' if k < .7 else r.choice(['none', 'bad']), style=style if k < .7 else [])
        elif name == 'index.css' or name.endswith('.css') and r.random() < .6 or name != 'node_modules' and r.random() < .35:
            fs[p] = dict(k='file', pkg='no', style=[])
            if r.random() < .1:
                fs[p]['k'] = 'dir'
        else:
            fs[p] = dict(k='dir', pkg='no', style=[])
        if fs[p]['k'] == 'dir':
            dirs.append(p)
    return [dict(p=list(p), n=n) for p, n in fs.items()], dirs


def random_spec(r):
    n = r.choice([1, 1, 2, 2, 3])
    parts = [r.choice(['m', 'm', 'm.css', 'sub', 'index', 'index.css', '@s', 'é', 'a b', '.m', 'M', 'node_modules', '.', '..', '']) for _ in range(n)]
    return r.choice([[], [], ['.'], ['.'], ['..'], ['..', '..'], ['']]) + parts


def depth_ok(parts, base):
    """Stays below the root of the tree, which is not the root of the file system."""
    d = base
    for x in parts:
        d += -1 if x == '..' else 0 if x in ('', '.') else 1
        if d < 0:
            return False
    return True


def random_trees(chk, count, exact, relative):
    cases, asked = [], []
    for i in range(count):
        r = rng(chk, 'random', i)
        fs, dirs = random_tree(r, r.choice([4, 8, 12, 20, 30]))
        qs = []
        for _ in range(12):
            d = r.choice(dirs)
            if r.random() < .1:
                d = d + ('absent',)
            spec = random_spec(r)
            base = list(r.choice(dirs)) if r.random() < .4 else NOBASE
            isrel = len(spec) > 1 and spec[0] in ('', '.', '..')
            if relative is not None and isrel != relative:
                continue
            styles = [e['n']['style'] for e in fs]
            # ".." may not lead out of the tree
            if not depth_ok(spec, len(d) if isrel else 0 if base == NOBASE else min(len(base), 1)):
                continue
            qs.append(dict(spec=spec, base=base, **{'from': list(d)}))
        bad = any(e['n']['pkg'] == 'style' and not depth_ok(e['n']['style'], len(e['p']) - 1) for e in fs)
        if bad or not qs:
            continue
        c = dict(id='r%d' % i, tree=materialize(r, fs), runs=[question(r, x, fs) for x in qs])
        for q in c['runs']:
            if 'absent' in q['from']:
                q['fromAs'] = ''
        cases.append(c)
        asked.append((fs, qs))
    got = ask(chk, cases)
    recs, info = [], {}
    for c, (fs, qs), g in zip(cases, asked, got):
        for j, (x, q, a) in enumerate(zip(qs, c['runs'], g['runs'])):
            if judge(chk, q, a, None, c):
                continue
            id = '%s.%d' % (c['id'], j)
            rec = dict(id=id, fs=fs, exact=exact, ok=not a['err'], missing='-' if exact or not a['err'] else 'yes' if a['nf'] else 'no', p=[] if a['err'] else a['rel'].split('/'), **x)
            recs.append(rec)
            info[id] = (c, q, a)
    chk.add('trees', len(cases))
    for at in range(0, len(recs), 20000):
        part = recs[at:at + 20000]
        d = tempfile.mkdtemp(prefix='cssc-rec-')
        try:
            with open(os.path.join(d, 'cases.ndjson'), 'w') as f:
                f.write('\n'.join(json.dumps(x) for x in part) + '\n')
            t = vlib.tlc('ResolverCheck', env={'CASES': os.path.join(d, 'cases.ndjson')})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if not t.ok or t.distinct != 2 * len(part):
            raise vlib.CheckError('TLC did not check all answers: ' + t.out[-2000:])
        chk.tlc(t)
        chk.add('traces_validated_against_impl', len(part))
        for l in t.prints('MISMATCH'):
            id = l.split('"')[3]
            if 'GENERATOR' in l:
                raise vlib.CheckError('bad tree: %s' % info[id][0])
            c, q, a = info[id]
            chk.violation('%s: specifier %r from %r, base %r (as %s, %s) resolved to %s: %s\ntree: %s' %
                          (id, q['spec'], q['from'], q['base'], q['fromAs'], q['baseAs'], a['err'] and 'an error' or a['rel'], l, c['tree']), case=c, question=q, answer=a)


WEIRD = ['', '.', '..', '...', '~', '~/m', '/', '//', './', '../', './.', 'm\0', './m\0x', 'm' * 300, './' + 'm/' * 3000, 'http://x/y.css', '\\m', '.\\m', ' ', './ m', 'm?x', 'm#x', '%6d',
         './m%00', '\ud7ff', '*', './*', 'node_modules', '@s', '@', 'package.json', './package.json', './loop', './loop/m', './broken', './todir', './tofile', './tofile/x', 'loop', 'todir', 'm/', './m/.',
         './locked', './locked/m', './fifo', './m/../m', 'x/../../m', './index', 'index.css', '\x01', '-m', './' + '../' * 60 + 'm']
ODD = ['null', '"x"', '3', '[{"style":"m"}]', '\ufeff{"style":"m"}', '{"style":"\\u0000"}', '{"style":"."}', '{"style":".."}', '{"style":"/etc/hostname"}', '{"style":"' + 'x/' * 3000 + '"}',
       '{"style":{"x":1}}', '{"style":true}', '{"STYLE":"m"}', '{"style":"loop"}', '{"style":"todir"}', '[' * 20000, '{"style":"./"}', '{"style":"broken"}', '{"style":"../package.json"}', '{"style":"\\ud800"}']


def weird_trees(chk, count):
    """Trees and specifiers the documentation says nothing about: only the shape of the answer counts."""
    cases = []
    for i in range(count):
        r = rng(chk, 'weird', i)
        fs, dirs = random_tree(r, r.choice([3, 6, 12, 20]))
        tree = materialize(r, fs)
        paths = {e['p'] for e in tree}
        for e in tree:
            if e['k'] == 'file' and e['p'].endswith('package.json') and r.random() < .7:
                e['text'] = r.choice(ODD)
            if e['k'] == 'dir' and r.random() < .05 or e['k'] == 'file' and r.random() < .05:
                e['mode'] = r.choice([0o000, 0o111, 0o444]) if e['k'] == 'file' else 0o755
        for d in dirs:
            pre = '/'.join(d + ('',))
            for name, target in (('loop', 'loop'), ('broken', 'nowhere'), ('todir', '.'), ('tofile', 'm.css'), ('index.css', r.choice(['.', 'index.css', 'm'])),
                                 ('package.json', r.choice(['.', 'nowhere', 'package.json'])), ('node_modules', r.choice(['.', '..', 'node_modules'])), ('m', r.choice(['m', 'm.css', '..'])), ('m.css', r.choice(['m', 'm.css', '.']))):
                if r.random() < .3 and pre + name not in paths:
                    paths.add(pre + name)
                    tree.append(dict(p=pre + name, k='link', text=target, mode=0))
            if r.random() < .1 and pre + 'package.json' not in paths:
                tree.append(dict(p=pre + 'package.json', k='dir', text='', mode=0))
        qs = []
        for _ in range(20):
            d = r.choice(dirs)
            s = r.choice(WEIRD) if r.random() < .7 else '/'.join(random_spec(r))
            qs.append(dict(spec=s, base=r.choice(['?', '?', '', '/'.join(r.choice(dirs)), 'absent']), cwd='/'.join(r.choice(dirs)), fromAs=r.choice(SPELL), baseAs=r.choice(SPELL),
                           **{'from': '/'.join(d)}))
        cases.append(dict(id='w%d' % i, tree=tree, runs=qs))
    for c, g in zip(cases, ask(chk, cases)):
        for q, a in zip(c['runs'], g['runs']):
            judge(chk, q, a, None, c)
    chk.add('trees', len(cases))
    chk.add('traces_validated_against_impl', sum(len(c['runs']) for c in cases))


def r01(prop):
    chk = begin(prop)
    family(chk, 'relative')
    random_trees(chk, chk.scale(1500, 30000), True, True)
    return chk.finish()


def r02(prop):
    chk = begin(prop)
    family(chk, 'bare', most=chk.scale(2500, None))
    family(chk, 'deep', most=chk.scale(1500, None))
    family(chk, 'other')
    family(chk, 'deep', root=True, most=chk.scale(500, None))
    random_trees(chk, chk.scale(1500, 30000), True, False)
    return chk.finish()


def r03(prop):
    chk = begin(prop)
    for name in ('relative', 'bare', 'deep', 'other'):
        family_shape(chk, name)
    random_trees(chk, chk.scale(800, 20000), False, None)
    weird_trees(chk, chk.scale(1500, 30000))
    return chk.finish()


def family_shape(chk, name):
    """Only soundness and the kind of the error, on a sample."""
    family(chk, name, most=chk.scale(400, 4000), shape=True)


REGISTRY = dict(R01=r01, R02=r02, R03=r03)
