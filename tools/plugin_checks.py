"""E01, E02: the esbuild plugin, judged by PluginCheck.tla and Location.tla."""
import json, os, re, shutil, subprocess, tempfile
import css, css_checks, frame, gen, loc_checks, map_checks, vlib

LEVEL = 'model_checking'
ASSUME = ['esbuild v0.8.6 as vendored in the module cache; the load callback is called by a stand-in for its plugin host, and whole builds go through the real one',
          'Compile is what the other properties are about: here its results are the reference']
rng = map_checks.rng
NAMES = ['a.css', 'b.css', 'lib/c d.css', 'é.css', 'x.module.css', '.css', 'lib/deep/a.css', 'F.css', 'g-1.css']


def run_esb(cases, race=False, timeout=60, jobs=8):
    data = []
    for c in cases:
        data.append(json.dumps(dict(id=c['id'], files={k: vlib.b64(v) for k, v in c['files'].items()}, runs=c['runs'])))
    p = subprocess.run([vlib.binary('esb', race), '-j', str(jobs), '-t', str(timeout)], input=('\n'.join(data) + '\n').encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise vlib.CheckError('driver failed: ' + p.stderr.decode('utf-8', 'replace')[:3000])
    out = [json.loads(l) for l in p.stdout.splitlines()]
    for x in out:
        for got in [g for run in x['runs'] for g in [run] + (run.get('again') or [])]:
            for ref in (got.get('refs') or {}).values():
                ref['errs'] = [vlib.untraced(e) for e in ref['errs']]
            for ms in [got.get('errs'), got.get('directErrs')] + [l['messages'] for l in got.get('loads') or [] if l]:
                for m in ms or []:
                    m['text'] = vlib.untraced(m['text'])
    return out


def load(loads, o=None, mode='pass', names=None, schedule=(), plain=False, kind='load', spelling='', edits=()):
    return dict(edits=[{k: None if v is None else vlib.b64(v) for k, v in e.items()} for e in edits], kind=kind, o=o or vlib.opts(), mode=mode, plain=plain, names=names or {}, loads=list(loads), spelling=spelling,
                schedule=[dict(l=l, k=k) for l, k in schedule])


# ---------------------------------------------------------------- cases
def document(r, o, bad=.3):
    """A stylesheet with features of the transforms, and perhaps problems."""
    k = r.random()
    if k < bad:
        f = loc_checks.File()
        loc_checks.content(r, f, o, r.choice(loc_checks.FATAL) if r.random() < .4 else None)
        return f.text
    return map_checks.stylesheet(r, css_checks.feats_for(o), r.choice([1, 2, 4]))


def loadset(r, id):
    """Files with imports whose resolution is scheduled."""
    loads = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        k = r.choice([0, 1, 1, 2, 3])
        loads.append(dict(imports=k, fails=[j + 1 for j in range(k) if r.random() < .25]))
    return dict(id=id, loads=loads)


def schedules(chk, sets, n):
    d = tempfile.mkdtemp(prefix='cssc-esb-')
    try:
        path = os.path.join(d, 'l.ndjson')
        with open(path, 'w') as f:
            for s in sets:
                f.write(json.dumps(s) + '\n')
        r = vlib.tlc('Plugin', cfg='PluginSim.cfg', env={'LOADS': path}, args=['-simulate', 'num=%d' % (n // 8 + 1), '-seed', str(vlib.SEED), '-depth', '200'], workers=8)
        if 'Error' in r.out:
            raise vlib.CheckError('PluginSim: ' + r.out[-1500:])
        m = re.search(r'number of states generated: (\d+)', r.out)
        r.generated = r.distinct = int(m.group(1)) if m else 0
        chk.tlc(r)
        out = {}
        for line in r.out.splitlines():
            if line.startswith('"H`'):
                _, i, h = json.loads(line).split('`')
                out.setdefault(int(i), set()).add(h)
        chk.add('schedules_derived', sum(map(len, out.values())))
        return {i: [json.loads(h) for h in sorted(hs)] for i, hs in out.items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def scheduled(chk, n, per):
    sets = [loadset(rng(chk, 'set', i), i) for i in range(n)]
    hs = schedules(chk, sets, n * per)
    cases = []
    for s in sets:
        r = rng(chk, 'sched', s['id'])
        mode, o = r.choice(['inline', 'inline', 'follow']), r.choice(css_checks.allopts())
        files, names = {'leaf%d.css' % j: document(r, o, .1) for j in range(1, 4)}, {}
        loads = []
        for i, l in enumerate(s['loads'], 1):
            name = ('L%d' % i) + r.choice(['.css', '.module.css', '/x.css'])
            loads.append(name)
            text = ''
            for j in range(1, l['imports'] + 1):
                spec = 'gate:%d:%d:' % (i, j)
                text += '@import "%s";\n' % spec
                names[spec] = '' if j in l['fails'] else 'leaf%d.css' % j
            files[name] = text + document(r, o, .15)
        runs = [load(loads, o, mode, dict(names, unused='leaf1.css'), h) for h in hs.get(s['id'], [])[:per + 2]]
        if runs:
            cases.append(dict(id='s%d' % s['id'], files=files, runs=runs))
    return cases


def crowds(chk, n, most):
    """Many loads at once, some of the same file, of files of all kinds."""
    cases = []
    for i in range(n):
        r = rng(chk, 'crowd', i)
        o = r.choice(css_checks.allopts())
        files = {name: document(r, o, .3) for name in r.sample(NAMES, r.choice([1, 3, 6, 9]))}
        mode = r.choice(['pass', 'inline', 'follow'])
        have = sorted(files)
        for name in have:
            if r.random() < .4:
                to = r.choice(NAMES)
                spec = os.path.relpath(to, os.path.dirname(name) or '.')
                files[name] = '@import "%s";' % (spec if spec.startswith('../') else './' + spec) + files[name]
        for name in have:
            if r.random() < .25:
                # The same problem more than once, and alike problems.
                files[name] = ''.join('@import "./%s";' % r.choice(['none.css', 'none.css', 'None.css']) for _ in range(r.choice([1, 2, 3]))) + files[name]
        loads = [r.choice(have + (['missing.css'] if r.random() < .2 else [])) for _ in range(r.choice([1, 2, 8, most]))]
        cases.append(dict(id='c%d' % i, files=files, runs=[load(loads, o, mode), load(loads[:3], plain=True), load(loads[:4], o, mode, spelling='odd')]))
    return cases


def edited(chk, n):
    """A plugin that outlives its builds: files change, come and go, and break and are repaired."""
    cases = []
    for i in range(n):
        r = rng(chk, 'edited', i)
        o, mode = r.choice(css_checks.allopts()), r.choice(['pass', 'inline', 'follow'])
        names = r.sample(NAMES, r.choice([1, 2, 4]))

        def version(name):
            text = document(r, o, .3)
            if r.random() < .5:
                to = r.choice(names)
                spec = os.path.relpath(to, os.path.dirname(name) or '.')
                text = '@import "%s";' % (spec if spec.startswith('../') else './' + spec) + text
            return text
        files = {x: version(x) for x in names}
        edits = [{x: None if r.random() < .15 else version(x) for x in names if r.random() < .6} for _ in range(r.choice([1, 2, 3]))]
        cases.append(dict(id='e%d' % i, files=files, runs=[load([r.choice(names) for _ in range(r.choice([1, 3, 6]))], o, mode, edits=edits)]))
    return cases


def plain(r, o, bad):
    """A document without urls, which esbuild would look for."""
    while True:
        text = document(r, o, bad)
        if not re.search(r'rl|\\0*[57]2|\\0*[46]c', text, re.I):
            return text


def builds(chk, n):
    cases = []
    for i in range(n):
        r = rng(chk, 'build', i)
        o = r.choice(css_checks.allopts())
        mode = r.choice(['pass', 'pass', 'inline'])
        bad = i % 4 == 3
        names = r.sample([x for x in NAMES if x != '.css'], r.choice([1, 2, 4]))
        files = {x: plain(r, o, .5 if bad else 0) for x in names}
        if not bad:
            for x, y in zip(names, names[1:]):
                if r.random() < .6:
                    spec = os.path.relpath(y, os.path.dirname(x) or '.')
                    files[x] = '@import "%s";' % (spec if spec.startswith('../') else './' + spec) + files[x]
        entries = names[:r.choice([1, 2, 4])]
        if r.random() < .3 and not bad:
            files['main.js'] = ''.join('import %s;' % json.dumps('./' + x) for x in entries) + 'console.log(1)'
            entries = ['main.js']
        cases.append(dict(id='b%d' % i, files=files, bad=bad, runs=[load(entries, o, mode, kind='build')]))
    return cases


# ---------------------------------------------------------------- judging
def text(s):
    return [ord(x) for x in s]


def decoded(b):
    return vlib.codes(vlib.unb64(b)) if b else []


def record(c, k, run, got):
    names = sorted(got['refs'])
    num = {n: i + 1 for i, n in enumerate(names)}
    return dict(id='%s/%d' % (c['id'], k),
                refs=[dict(has=x['has'], out=decoded(x['out']), errs=[text(e) for e in x['errs']]) for x in (got['refs'][n] for n in names)],
                loads=[dict(ref=num[n], odd=run['spelling'] != '', skipped=l['skipped'], panic=bool(l['panic']), has=l['has'], contents=decoded(l['contents']), css=l['css'], failed=l['failed'],
                            messages=[dict(text=text(m['text']), located=m['located'], file=text(m['file']), line=m['line'], column=m['column'], lineText=text(m['lineText']), length=m['length'], lineSize=m['lineSize'])
                                      for m in l['messages'][:len(got['refs'][n]['errs']) + 5]])
                       for n, l in zip(run['loads'], got['loads'])])


MESSAGES = ('messages about', 'the messages are', 'a message lost', 'the location of')


def judge(chk, recs):
    if not recs:
        return []
    d = tempfile.mkdtemp(prefix='cssc-rec-')
    try:
        path = os.path.join(d, 'cases.ndjson')
        with open(path, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        t = vlib.tlc('PluginCheck', env={'CASES': path}, stack='256m')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not t.ok or t.distinct != 2 * len(recs):
        if len(recs) == 1:
            chk.broken.append((recs[0]['id'], t.out[-1500:]))
            return []
        if 'Parsing or semantic analysis failed' in t.out:
            raise vlib.CheckError(t.out[-3000:])
        return judge(chk, recs[:len(recs) // 2]) + judge(chk, recs[len(recs) // 2:])
    chk.tlc(t)
    chk.add('programs', len(recs))
    chk.add('disagreements_checked', sum(len(r['loads']) for r in recs))
    return [re.match(r'<<"MISMATCH", "([^"]*)", (\d+), "([^"]*)">>', l).groups() for l in t.prints('MISMATCH')]


def check(chk, cases, race=False, batch=400):
    """Everything that goes through the load callback."""
    for at in range(0, len(cases), batch):
        recs, info = [], {}
        for c, res in zip(cases[at:at + batch], run_esb(cases[at:at + batch], race)):
            for k, (run, got) in enumerate(zip(c['runs'], res['runs'])):
                if got['status'] != 'ok':
                    if chk.prop == 'E01':
                        chk.violation('case %s run %d: %s: %s' % (c['id'], k, got['status'], got.get('detail', '')[:3000]), case=c)
                    continue
                chk.add('loads', len(run['loads']))
                if run['schedule']:
                    chk.add('traces_validated_against_impl')
                for phase, g in enumerate([got] + (got.get('again') or [])):
                    rec = record(c, k, run, g)
                    rec['id'] += '+%d' % phase if phase else ''
                    recs.append(rec)
                    info[rec['id']] = (c, k, run, g)
                    if phase:
                        chk.add('loads_after_edits', len(run['loads']))
        for id, l, what in judge(chk, recs):
            if what.startswith(MESSAGES) != (chk.prop == 'E02') and 'panics' not in what:
                continue
            c, k, run, got = info[id]
            l = int(l) - 1
            ref = got['refs'][run['loads'][l]]
            chk.violation('case %s: load of %s: %s\noptions: %s %s\nloads: %s\nfiles: %s\nplugin: %s\nCompile: %s' %
                          (id, run['loads'][l], what, run['mode'], run['o'], run['loads'], c['files'], show(got['loads'][l]), show(ref)), case=dict(c, runs=[run]))
        chk.sample(dict(files=cases[at]['files'], runs=cases[at]['runs'][:1]))


def show(x):
    x = dict(x)
    for k in ('contents', 'out'):
        if x.get(k):
            x[k] = vlib.unb64(x[k])
    return x


def whole(chk, cases):
    """esbuild builds, with the plugin and of what was compiled before."""
    for c, res in zip(cases, run_esb(cases)):
        got = res['runs'][0]
        run = c['runs'][0]
        if got['status'] != 'ok':
            chk.violation('case %s: %s: %s' % (c['id'], got['status'], got.get('detail', '')[:3000]), case=c)
            continue
        chk.add('builds')
        errs = [e for n in got['refs'] for e in got['refs'][n]['errs']]
        if not errs:
            if got['errs'] != got['directErrs'] or got['built'] != got['direct']:
                chk.violation('case %s: a build with the plugin differs from one of what Compile returns\nfiles: %s\noptions: %s %s\nerrors: %s\nbuilt: %s\nexpected: %s' %
                              (c['id'], c['files'], run['mode'], run['o'], got['errs'][:3], {k: vlib.unb64(v) for k, v in (got['built'] or {}).items()}, {k: vlib.unb64(v) for k, v in (got['direct'] or {}).items()}), case=c)
            chk.add('builds_compared' if got['built'] else 'builds_failed')
        elif any(got['refs'][n]['errs'] for n in run['loads'] if n in got['refs']) and not got['errs']:
            chk.violation('case %s: a build of something with errors succeeds\nfiles: %s\nerrors: %s' % (c['id'], c['files'], errs[:3]), case=c)
        if c['bad'] and all(n in run['loads'] for n in got['refs']):
            if sorted(m['text'].replace('[cssc] ', '', 1) for m in got['errs']) != sorted(errs):
                chk.violation('case %s: the errors of a build are not those of Compile\nfiles: %s\nerrors: %s\nCompile: %s' % (c['id'], c['files'], got['errs'], errs), case=c)


def design(chk):
    if frame.SCALE < 1:
        return
    r = vlib.tlc('Plugin')
    if not r.ok:
        raise vlib.CheckError('Plugin: ' + r.out[-2000:])
    chk.tlc(r)
    chk.cov['design_states'] = r.distinct


def e01(prop):
    chk = frame.Check(prop, LEVEL)
    chk.assumptions = ASSUME
    design(chk)
    check(chk, scheduled(chk, chk.scale(120, 1500), 4))
    check(chk, crowds(chk, chk.scale(150, 3000), 30))
    check(chk, edited(chk, chk.scale(80, 1500)))
    check(chk, crowds(chk, chk.scale(30, 300), 40), race=True)
    whole(chk, builds(chk, chk.scale(120, 2000)))
    return chk.finish()


def e02(prop):
    chk = frame.Check(prop, LEVEL)
    chk.assumptions = ASSUME
    design(chk)
    check(chk, scheduled(chk, chk.scale(80, 800), 3))
    check(chk, crowds(chk, chk.scale(120, 2000), 12))
    check(chk, edited(chk, chk.scale(60, 1000)))
    cases = []
    for kind, k in ((loc_checks.one, chk.scale(900, 15000)), (loc_checks.several, chk.scale(300, 5000))):
        cases += [kind(rng(chk, kind.__name__, i), '%s%d' % (kind.__name__[0], i)) for i in range(k)]
    as_esb = [dict(id=c['id'], files={n: f.text for n, f in c['files'].items()}, runs=[load(['a.css'], c['o'], c['mode'])]) for c in cases]
    recs, lrecs, info = [], [], {}
    for c, e, res in zip(cases, as_esb, run_esb(as_esb)):
        got = res['runs'][0]
        if got['status'] != 'ok':
            chk.violation('case %s: %s: %s' % (c['id'], got['status'], got.get('detail', '')[:1000]), case=e)
            continue
        rec = record(e, 0, e['runs'][0], got)
        recs.append(rec)
        num = {'$R/' + n: i + 1 for i, n in enumerate(c['files'])}
        ms = [m for m in got['loads'][0]['messages'] if m['located']]
        lrecs.append(dict(id=rec['id'], files=[text(f.text) for f in c['files'].values()],
                          problems=[dict(must=must, at=[dict(f=num['$R/' + n], p=p) for p in at]) for n, f in c['files'].items() for must, at in f.marks],
                          reports=[dict(f=num.get(m['file'], 0), l=m['line'], c=m['column'] + 1, text=text(m['lineText'].replace('\t', '  '))) for m in ms], marks=[]))
        info[rec['id']] = (e, got)
    for id, l, what in judge(chk, recs):
        if what.startswith(MESSAGES):
            e, got = info[id]
            chk.violation('case %s: %s\nfiles: %s\nmessages: %s\nCompile: %s' % (id, what, e['files'], got['loads'][0]['messages'], got['refs']['a.css']['errs']), case=e)
    for id, line in loc_checks.judge(chk, lrecs):
        e, got = info[id]
        chk.violation('case %s: %s\nfiles: %s\nmessages: %s' % (id, vlib.decode_codes(line)[len(id) + 17:], e['files'], got['loads'][0]['messages']), case=e)
    return chk.finish()


REGISTRY = dict(E01=e01, E02=e02)
