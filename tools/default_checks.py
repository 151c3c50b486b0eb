"""A01: what is left out of the options, judged by Defaults.tla."""
import json, os, re, shutil, subprocess, tempfile
import css_checks, frame, loc_checks, map_checks, vlib

rng = map_checks.rng

def project(r, id):
    """Files with problems of all kinds that import each other, packages and what is only in the working directory."""
    c = (loc_checks.several if r.random() < .6 else loc_checks.one)(r, id)
    files = {n: f.text for n, f in c['files'].items()}
    for n in list(files):
        if r.random() < .4:
            spec = r.choice(['pkg', '@s/pkg', 'pkg/x.css', 'wd.css', 'wd', './wd.css', './none.css', './none', 'nowhere', '../d.css', 'lib'])
            # the same one more than once
            files[n] = ('@import "%s";' % spec) * r.choice([1, 1, 2]) + files[n]
    files['wd.css'] = 'wd{a:b}'
    if r.random() < .7:
        files['node_modules/pkg/index.css'] = 'pkg{a:b}'
        files['node_modules/pkg/x.css'] = 'x{a:b}'
        files['node_modules/@s/pkg/package.json'] = '{"style":"m.css"}'
        files['node_modules/@s/pkg/m.css'] = 'm{a:b}'
    entry = ['a.css'] + [e for e in ('wd.css', 'missing.css', 'lib/b.css', 'a.css') if r.random() < .2]
    zero = r.random() < .3
    what = r.choice([(True, True), (True, False), (False, True)])
    return dict(id=id, files={k: vlib.b64(v) for k, v in files.items()}, entry=entry, o=vlib.opts() if zero else c['o'], mode='pass' if zero else r.choice(['pass', 'follow', 'inline']),
                noReporter=what[0], noResolver=what[1], gone=False, least=0, times=r.choice([1, 1, 1, 2, 3]))

def run(cases):
    d = tempfile.mkdtemp(prefix='cssc-def-')
    try:
        p = subprocess.run([vlib.binary('def')], input=('\n'.join(json.dumps(c) for c in cases) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=dict(os.environ, TMPDIR=d), timeout=600)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    return p, out

def text(b):
    return list(vlib.codes(vlib.untraced(vlib.unb64(b))))

def side(x, reported):
    return dict(files=[dict(name=[ord(ch) for ch in k], text=text(v)) for k, v in sorted((x['files'] or {}).items())], errs=[text(e) for e in x['errs']],
                stderr=text(x['stderr']), stdout=text(x['stdout']), panic=bool(x['panic']), reported=reported)

def show(x):
    return dict(x, files={k: vlib.unb64(v) for k, v in (x['files'] or {}).items()}, errs=[vlib.unb64(e) for e in x['errs']], stderr=vlib.unb64(x['stderr']), stdout=vlib.unb64(x['stdout']))

def judge(chk, recs):
    d = tempfile.mkdtemp(prefix='cssc-rec-')
    try:
        path = os.path.join(d, 'cases.ndjson')
        with open(path, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        t = vlib.tlc('Defaults', env={'CASES': path}, stack='256m')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not t.ok:
        raise vlib.CheckError('Defaults: ' + t.out[-2000:])
    chk.tlc(t)
    return [re.match(r'<<"MISMATCH", "([^"]*)", "([^"]*)">>', l).groups() for l in t.prints('MISMATCH')]

def a01(prop):
    chk = frame.Check(prop, 'model_checking')
    chk.assumptions = ['the standard streams are the file descriptors 1 and 2', 'what Compile does with a reporter and a resolver is what the other properties are about']
    n = chk.scale(1500, 20000)
    for at in range(0, n, 500):
        compare(chk, [project(rng(chk, 'case', i), 'd%d' % i) for i in range(at, min(n, at + 500))])
    compare(chk, [crowd(rng(chk, 'crowd', i), 'c%d' % i) for i in range(chk.scale(40, 400))])
    return chk.finish()

def crowd(r, id):
    """Several compilations with many errors each, at the same time."""
    files = {'%s.css' % x: vlib.b64(''.join('a{b:var(--%s%d)}\n' % (x * r.choice([1, 9]), i) for i in range(r.choice([5, 20, 40])))) for x in 'abc'}
    return dict(id=id, files=files, entry=sorted(files), o=vlib.opts('props'), mode='pass', noReporter=True, noResolver=r.random() < .5, gone=False, least=0, times=r.choice([2, 4, 8]))

def gone(chk):
    """Entries that cannot be found because the working directory is gone are failures like others (C04)."""
    cases = []
    for i, entry in enumerate((['a.css'], ['a.css', 'b.css'], ['./a.css', '../b.css', 'c/d.css'])):
        for mode in ('pass', 'follow', 'inline'):
            cases.append(dict(id='g%d%s' % (i, mode), files={'a.css': vlib.b64('a{b:c}')}, entry=entry, o=vlib.opts(), mode=mode, noReporter=False, noResolver=True, gone=True, least=len(entry), times=1))
    compare(chk, cases)

def compare(chk, cases):
    p, out = run(cases)
    if len(out) < len(cases):
        c = cases[len(out)]
        if p.returncode == 2 and b'panic' in p.stderr or b'fatal error' in p.stderr or p.returncode < 0:
            chk.violation('case %s: compiling with defaults ends the process: %s\nfiles: %s' % (c['id'], p.stderr.decode('utf-8', 'replace')[:2000], c['files']), case=c)
            return
        raise vlib.CheckError('def failed: ' + p.stderr.decode('utf-8', 'replace')[-2000:])
    info = {c['id']: (c, g) for c, g in zip(cases, out)}
    recs = [dict(id=c['id'], least=c['least'], spelled=side(g['spelled'], True), left=side(g['left'], not c['noReporter'])) for c, g in zip(cases, out)]
    for id, what in judge(chk, recs):
        c, g = info[id]
        chk.violation('case %s: left out:%s%s: %s\nfiles: %s\nentry: %s mode: %s options: %s\nspelled out: %s\nleft out: %s' %
                      (id, ' reporter' if c['noReporter'] else '', ' resolver' if c['noResolver'] else '', what, {k: vlib.unb64(v) for k, v in c['files'].items()}, c['entry'], c['mode'], c['o'], show(g['spelled']), show(g['left'])), case=c)
    chk.add('programs', len(recs))
    chk.add('disagreements_checked', len(recs))
    chk.add('errors_printed', sum(len(r['spelled']['errs']) for r in recs if not r['left']['reported']))
    chk.sample(dict(files={k: vlib.unb64(v).decode('utf-8', 'replace') if isinstance(vlib.unb64(v), bytes) else vlib.unb64(v) for k, v in cases[0]['files'].items()}, entry=cases[0]['entry'], mode=cases[0]['mode']))

REGISTRY = dict(A01=a01)
