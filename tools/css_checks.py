"""S and T checks, and the ones of C that are about what outputs mean."""
import re
import itertools, random
import css, frame, gen, projects, vlib

OPTS = ['props', 'media', 'ranges', 'anylink', 'calc']
LEVEL = 'translation_validation'
ASSUME = ['CssLex/CssParse/CssTransform.tla say correctly what CSS texts and transforms mean',
          'whitespace inside math functions is not compared (known finding calc-plus)',
          'numbers computed by transforms are compared up to 2/10000']


def rng(chk, *key):
    return random.Random('%s/%d/%s' % (chk.prop, vlib.SEED, key))


def allopts():
    return [vlib.opts(*s) for k in range(6) for s in itertools.combinations(OPTS, k)]


def feats_for(o, **kw):
    """What the generator may use so that the documents stay in the compared subset."""
    f = dict(vars=True, defs=True, custommedia=True, mdefs=True, anylink=True)
    if o['calc'] or o['props'] and kw.get('plusminus', True):
        # substituted next to + or -, other values would change what the output means (finding calc-plus)
        f.update(simpledefs=True, simplefb=True)
    f.update(kw)
    return f


def doc(r, feats, style='mixed', n=None, nl=None):
    g = gen.Gen(r, **feats)
    d = g.stylesheet(n)
    return d, gen.render(d, gen.Layout(r, style, nl)), g


def single(id, text, o, **kw):
    return css.case(id, {'a.css': text}, [css.run('a.css', o, **kw)])


def enumerated(chk, kind, depth, o, quick, thorough, group=1, sep=b'\n', need=None, mode='pass', noerr=False):
    """Replay what CssGen derives: all of it if it fits, else a sample."""
    docs, r = vlib.derive(kind, depth)
    chk.tlc(r)
    chk.add('derived', len(docs))
    limit = chk.scale(quick, thorough)
    pick = docs
    if len(docs) > limit:
        pick = rng(chk, kind, depth).sample(docs, limit)
    else:
        chk.add('grammars_exhausted')
    chk.add('derived_replayed', len(pick))
    texts = [vlib.spell(d) for d in pick]
    cases = []
    for i in range(0, len(texts), group):
        cases.append(single('%s%d-%d' % (kind, depth, i), sep.join(texts[i:i + group]), o[(i // group) % len(o)] if isinstance(o, list) else o, noerr=noerr))
    css.check(chk, cases, need=need)


def random_docs(chk, count, o, feats=None, need=None, name='r', again=False, style='mixed', **kw):
    """count random documents; o: options or list of options."""
    os = o if isinstance(o, list) else [o]
    cases = []
    for i in range(count):
        r = rng(chk, name, i)
        oo = os[i % len(os)]
        f = dict(feats or {})
        if oo['props'] and not oo['calc'] and i % 2:
            f['plusminus'] = False
        _, text, g = doc(r, feats_for(oo, **f), style)
        run = dict(kw)
        if again:
            run['again'] = True
        if g.raws and g.f['rawcheck']:
            run['raws'] = {'a.css': g.raws}
        cases.append(single('%s%d' % (name, i), text, oo, **run))
    css.check(chk, cases, need=need)


def begin(prop):
    chk = frame.Check(prop, LEVEL)
    chk.assumptions = ASSUME
    css.probes(chk, frame.known(prop))
    return chk


# ---------------------------------------------------------------- syntax
def s02(prop):
    chk = begin(prop)
    off = vlib.opts()
    enumerated(chk, 'sel', 5, off, 4000, 50000, group=8)
    enumerated(chk, 'nth', 3, off, 4000, 50000, group=8)
    enumerated(chk, 'range', 4, off, 1500, 20000, group=6)
    random_docs(chk, chk.scale(2500, 40000), off)
    random_docs(chk, chk.scale(500, 8000), off, dict(malformed=True), name='m')
    random_docs(chk, chk.scale(400, 8000), off, dict(openescapes=True), name='e', maybe=True)
    return chk.finish()


def s03(prop):
    chk = begin(prop)
    docs, r = vlib.derive('layout', 2)
    chk.tlc(r)
    if chk.thorough:
        more, r = vlib.derive('layout2', 2)
        chk.tlc(r)
        docs += rng(chk, 'l2').sample(more, 25000)
    base = {}
    for d in docs:
        base.setdefault(d[0], d)
    plain, _ = vlib.derive('layout', 2)
    cases = []
    combos = allopts()
    # the default layout of a template: every slot at its default
    default = {k: min((d for d in plain if d[0] == k), key=lambda d: len(vlib.spell(d[2:]))) for k in base}
    for i, d in enumerate(docs):
        o = combos[0] if i % 3 else combos[-1]
        cases.append(css.case('l%d' % i, {'base.css': vlib.spell(default[d[0]][2:]), 'a.css': vlib.spell(d[2:])},
                              [css.run('a.css', o, like={'a.css': 'base.css'}, noerr=True), css.run('base.css', o, noerr=True)],
                              like=[('base.css', 'a.css')]))
    chk.add('layouts', len(docs))
    css.check(chk, cases)
    cases = []
    for i in range(chk.scale(700, 12000)):
        r = rng(chk, i)
        o = r.choice(combos) if i % 2 else combos[0]
        feats = feats_for(o)
        g = gen.Gen(r, **feats)
        d = g.stylesheet()
        files, runs = {}, []
        lay = [('min', '\n'), ('mixed', '\n'), ('mixed', '\r\n'), ('pretty', '\r\n'), ('mixed', '\r'), ('mixed', '\f')]
        for k, (style, nl) in enumerate([lay[0]] + r.sample(lay[1:], 2)):
            name = 'abc'[k] + '.css'
            files[name] = gen.render(d, gen.Layout(r, style, nl))
            runs.append(css.run(name, o, like={name: 'a.css'}))
        cases.append(css.case('d%d' % i, files, runs, like=[('a.css', 'b.css'), ('a.css', 'c.css')]))
    css.check(chk, cases)
    return chk.finish()


def s04(prop):
    chk = begin(prop)
    off = vlib.opts()
    enumerated(chk, 'bad', 3, off, 800, 800)
    enumerated(chk, 'bad', 4, off, 2500, 60000)
    random_docs(chk, chk.scale(1500, 25000), [off, vlib.opts(*OPTS)], dict(malformed=True, rawcheck=True))
    return chk.finish()


def s05(prop):
    chk = begin(prop)
    combos = allopts()
    random_docs(chk, chk.scale(1200, 20000), vlib.opts(), dict(plusminus=False), again=True)
    random_docs(chk, chk.scale(1200, 20000), combos, dict(plusminus=False), again=True, name='o')
    random_docs(chk, chk.scale(400, 8000), combos, dict(plusminus=False, malformed=True), again=True, name='m')
    return chk.finish()


ATOM = re.compile(r'/\*.*?\*/|\s+|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[\w-]+|\\.|.', re.S)
STRAY = ['/**/', '/*x*/', ' ', '\n', '{', '}', '(', ')', '[', ']', ';', ':', ',', '@', '!', '"', "'", '\\', '<!--', '-->', 'url(', '#', '.', '*',
         '|', '+', '-', '>', '~', '=', '%', '1', '1e3', 'u+1?', 'a', 'é', '\x00', '/', '<', '<=', '!important', '!', '--', '@media', '@import', '@x',
         '@keyframes', 'var(', 'calc(', 'not', 'and', '::', ':', '&', '$', '^', '$=', '^=', '*=', '~=', '|=', '\ufeff', '\f', '\r', '::before', '0',
         '.5', '+.5', 'e3', 'n', '2n', '-n', '+n', 'even', 'of', 's', 'i', 'u\\72l(', '\\31', '\\e9 ', '@supports', ',,', ';;', '\u212a', '{}', '()', '[]']


def edited(r, t):
    """A text in which some tokens are lost, doubled, exchanged, replaced or put in."""
    a = ATOM.findall(t)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if not a:
            break
        k = r.randrange(7)
        i = r.randrange(len(a))
        if k == 0:
            del a[i]
        elif k == 1:
            a.insert(i, r.choice(STRAY))
        elif k == 2:
            a[i] = r.choice(STRAY)
        elif k == 3:
            a.insert(i, a[r.randrange(len(a))])
        elif k == 4:
            j = r.randrange(len(a))
            a[i], a[j] = a[j], a[i]
        elif k == 5:
            ws = [j for j, x in enumerate(a) if x.isspace() or x.startswith('/*')]
            if ws:
                a[r.choice(ws)] = r.choice(['/**/', '', '/**/ ', ' /**/', ' '])
        else:
            a.insert(i, r.choice(['/**/', '/* x */', ' ', '/**/ ']))
    return ''.join(a)


def s07(prop):
    """Whatever is not reported means the same, however broken it is."""
    chk = begin(prop)
    off = vlib.opts()
    docs, res = vlib.derive('junk', 4)
    chk.tlc(res)
    n = chk.scale(3000, 60000)
    texts = [('j', vlib.spell(d)) for d in (rng(chk, 'junk').sample(docs, n) if len(docs) > n else docs)]
    docs, res = vlib.derive('odd', 4)
    chk.tlc(res)
    n = chk.scale(8000, 1000000)
    texts += [('o', vlib.spell(d)) for d in (rng(chk, 'odd').sample(docs, n) if len(docs) > n else docs)]
    for i in range(chk.scale(6000, 100000)):
        r = rng(chk, i)
        _, t, _ = doc(r, feats_for(off, malformed=i % 4 == 0, openescapes=i % 2 == 0), r.choice(['mixed', 'min']), n=1)
        texts.append(('e', edited(r, t)))
    for i in range(chk.scale(2500, 40000)):
        r = rng(chk, 'b', i)
        _, t, _ = doc(r, feats_for(off, malformed=i % 3 == 0), n=1)
        texts.append(('b', mutate(r, t.encode()).decode('utf-8', 'replace')))
    cases = []
    for i, (k, t) in enumerate(texts):
        t = t.decode('utf-8', 'replace') if isinstance(t, bytes) else t
        if not re.search(r'@[\w-]*\\', t):    # at-rules are not known by names with escapes
            cases.append(single('%s%d' % (k, i), t, off, maybe=True))
    # with transforms, every prelude and every declaration is as it was or what the transforms make of it
    combos = [vlib.opts('ranges'), vlib.opts('media', 'ranges'), vlib.opts('anylink'), vlib.opts('calc'), vlib.opts('media', 'ranges', 'anylink', 'calc')]
    for i in range(chk.scale(3500, 60000)):
        r = rng(chk, 't', i)
        o = combos[i % len(combos)]
        _, t, _ = doc(r, feats_for(o, malformed=i % 4 == 0, openescapes=i % 3 == 0), r.choice(['mixed', 'min']), n=r.choice([1, 2]))
        t = edited(r, t)
        if not re.search(r'@[\w-]*\\', t):
            cases.append(single('t%d' % i, t, o, maybe=True, mixed=True))
    # the same for projects: what is inlined comes out where it is imported, as it is
    combos[0] = off
    for i in range(chk.scale(1500, 25000)):
        r = rng(chk, 'p', i)
        o = combos[i % len(combos)]
        p = projects.project(r, feats_for(o), failures=False, rules=(1, 1, 2))
        for f in r.sample(sorted(p.files), r.choice([1, 1, 2])):
            p.files[f] = edited(r, p.files[f])
        if not any(re.search(r'@[\w-]*\\', t) for t in p.files.values()):
            cases.append(css.case('p%d' % i, p.files, [css.run(['main.css'], o, 'inline', maybe=True, mixed=True)], None))
    css.check(chk, cases, batch=4000)
    return chk.finish()


def s01(prop):
    chk = frame.Check(prop, 'exploration')
    docs, r = vlib.derive('junk', 4)
    chk.tlc(r)
    n = chk.scale(16000, 60000)
    if len(docs) > n:
        docs = rng(chk, 'junk').sample(docs, n)
    texts = [('junk', vlib.spell(d)) for d in docs]
    combos = [vlib.opts(), vlib.opts(*OPTS)]
    for i in range(chk.scale(3000, 60000)):
        r = rng(chk, i)
        _, t, _ = doc(r, feats_for(combos[1], malformed=True), n=r.choice([1, 2]))
        texts.append(('mutant', mutate(r, t.encode())))
    texts += [('size', t) for t in sizes(chk.scale(1, 4))]
    texts += [('deep', t) for t in deep(chk.scale(3000000, 6000000))]
    total(chk, [(k, {'a.css': t}, o, 'pass' if i % 5 else 'inline') for i, (k, t) in enumerate(texts)
                for o in (combos if k == 'size' else [combos[i % 2]])])
    chk.cov['rule'] = 'token sequences CssGen derives in 15 contexts; byte mutations of generated stylesheets; large inputs. Distinct: by content'
    chk.cov['evaluations'] = len(texts)
    chk.cov['distinct_nontrivial'] = len(set(t for _, t in texts))
    return chk.finish()


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(6)
        i = r.randrange(len(b) + 1)
        if k == 0:
            del b[i:]
        elif k == 1:
            del b[:i]
        elif k == 2 and b:
            del b[i:i + r.choice([1, 1, 2, 5])]
        elif k == 3:
            b[i:i] = r.choice([b'{', b'}', b'(', b')', b'"', b"'", b'\\', b'/*', b'*/', b'[', b']', b';', b'@', b'\x00', b'\xff', b'\n', b'url(', b'!', b'@media ', b':', b'#', b'<!--', b'\xc3', b'\x1b', b'var(', b'calc('])
        elif k == 4 and b:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.randrange(1, 20)]
        elif b and i < len(b):
            b[i] = r.randrange(256)
    return bytes(b)


def sizes(k):
    """Inputs that are hard on stacks and on quadratic algorithms."""
    n = 20000 * k
    yield b'a{b:' + b'(' * n
    yield b'a{b:' + b'f(' * n + b')' * n + b'}'
    yield b'a{b:calc(' + b'(' * n + b'1px' + b')' * n + b')}'
    yield b'a{b:calc(1px' + b' + 1px' * n + b')}'
    yield b'a' + b':not(' * n
    yield b'a' + b':not(b' * n + b')' * n + b'{c:d}'
    yield b'@media screen{' * n
    yield b'@x{' * n + b'}' * n
    yield b'@media ' + b'(' * n
    yield b'@media (a)' + b' and (a)' * n + b'{b{c:d}}'
    yield b'a{b:' + b'[' * n + b']' * n + b'}'
    yield b'a{' * n
    yield b'a{b:{' * n
    yield b'a{b:"' + b'\\' * n
    yield b'/*' * n
    yield b'\\' * n
    yield b'a{b:c}' * n
    yield b'a' * (10 * n) + b'{}'
    yield b'a,' * n + b'a{b:c}'
    yield b'a ' * n + b'{b:c}'
    yield b'a{' + b'b:c;' * n + b'}'
    yield b'a{b:' + b'c ' * n + b'}'
    yield b'a{b:' + b'c,' * n + b'd}'
    yield b';' * n
    yield b'a{' + b';' * n + b'}'
    yield b'\n' * n
    yield b'@import "x' + b'\\\n' * n
    for m in (16, 40, 1000):
        yield b':any-link' * m + b'{a:b}'
    yield b'a{b:var(' + b'--a,var(' * n + b')' * n + b'}'
    for q in ((12, 0), (12, 12), (6, 30), (11, 11, 11, 11), (3,) * 12):
        yield b''.join(b'a%s:not(' % (b':any-link' * m) for m in q) + b'b' + b')' * len(q) + b'{c:d}'
    yield b',\n'.join([b'a' + b':any-link' * 12] * (n // 20)) + b'{b:c}'
    yield b',\n'.join([b'a' + b'b' * 1000 + b':any-link' * 10] * (n // 10)) + b'{b:c}'
    yield b':root{--a:"' + b'x' * (20 * n) + b'"}' + b'\na{b:var(--a)}' * n
    yield b':root{--a:f(' + b'1,' * (10 * n) + b'1)}' + b'\na{b:var(--a)}' * n
    yield b'@custom-media --a ' + b' and '.join([b'(color)'] * (2 * n)) + b';' + b'\n@media (--a){a{b:c}}' * n
    yield b':root{' + b''.join(b'--v%d:var(--v%d) var(--v%d);' % (i, i + 1, i + 1) for i in range(60)) + b'}a{b:var(--v0)}'
    yield b''.join(b'@custom-media --v%d (--v%d) and (--v%d);' % (i, i + 1, i + 1) for i in range(60)) + b'@media (--v0){a{b:c}}'
    yield b':root{--a:var(--b);--b:var(--a)}a{b:var(--a)}'
    yield b':root{--a:var(--a)}a{b:var(--a) var(--a,1)}'
    yield b'@custom-media --a (--b);@custom-media --b (--a);@media (--a){b{c:d}}'
    yield b'a{b:c}\n' * 5 + b'\x00\xff\xfe' * n
    yield b'{' * n
    yield b'}' * n
    yield b'a{}' + b'}' * n
    yield b'<!--' * n
    yield b'@' * n
    yield b''
    yield b'\xef\xbb\xbf'
    yield b'\xff\xfe\x00a'


def deep(n):
    """Everything that contains itself, nested so deep that what recurses without a limit runs out of stack."""
    yield b'a{b:' + b'[' * n
    yield b'a{b:' + b'f(' * n
    yield b'a{b:' + b'calc(' * n
    yield b'a{b:calc(' + b'(' * n
    yield b'a{b:calc(1px' + b'+ 1px' * n + b')}'
    yield b'a{b:calc(1px' + b'*1' * n + b')}'
    yield b'a{b:var(--a' + b',var(--a' * n
    yield b'a' + b':not(' * n
    yield b'a' + b':is(b' * n
    yield b'@media print{' * n
    yield b'@supports (a:b){' * n
    yield b'@x{' * n
    yield b'@layer{@media print{a{b:c}' * (n // 2)
    yield b'a{b:{' * n
    yield b'a{b:=' + b'([{' * n
    yield b'@media ' + b'(' * n
    yield b'a{' * n


def limits(chk, o, gone, texts):
    """What is too much to transform is reported; otherwise nothing of it is left."""
    total(chk, [('limit', {'a.css': t}, o, 'pass') for t in texts], gone=gone)
    chk.add('programs', len(texts))


def total(chk, items, must=False, gone=None):
    """Outcome.tla: every compilation ends with an output or an error (must: with an error).
    gone: with an error, or an output without this text."""
    cases = [dict(id=str(i), files=f, runs=[css.run('a.css', o, mode)]) for i, (_, f, o, mode) in enumerate(items)]
    res = css.run_drv(cases, timeout=30)
    recs = []
    for (kind, f, o, mode), c, x in zip(items, cases, res):
        g = x['runs'][0]
        recs.append(dict(id=c['id'], status=g['status'], outs=len(g['outs']), errs=len(g['errs']),
                         badrender=sum(e.startswith('RENDER-PANIC') for e in g['errs']), must=must, left=bool(gone) and any(gone.encode() in t.split(b'/*# source')[0] for t in g['outs'].values())))
    bad = outcome(chk, recs)
    for id in bad:
        i = int(id)
        g = res[i]['runs'][0]
        t = items[i][1]['a.css']
        chk.violation('%s input of %d bytes, %s: %s %s outputs=%d errors=%s\n%r' % (
            items[i][0], len(t), items[i][3], g['status'], g.get('detail', '')[:300], len(g['outs']), g['errs'][:1], t[:200]),
            files={k: vlib.b64(v) for k, v in items[i][1].items()}, options=items[i][2], mode=items[i][3], errors=g['errs'][:3])
    for k, f, o, m in items[:2] + items[-2:]:
        chk.sample(dict(kind=k, text=repr(f['a.css'][:80])), most=4)


def outcome(chk, recs):
    import json, os, re, tempfile
    d = tempfile.mkdtemp(prefix='cssc-out-')
    try:
        path = os.path.join(d, 'r.ndjson')
        with open(path, 'w') as f:
            for x in recs:
                f.write(json.dumps(x) + '\n')
        r = vlib.tlc('Outcome', env={'CASES': path})
        if not r.ok or r.distinct != 2 * len(recs):
            raise vlib.CheckError('Outcome: ' + r.out[-1500:])
        chk.tlc(r)
        return re.findall(r'^<<"MISMATCH", "(\d+)"', r.out, re.M)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- transforms
def t01(prop):
    chk = begin(prop)
    combos = allopts()
    random_docs(chk, chk.scale(1600, 25600), combos)
    # documents that do not use the feature, with its transform on
    for name, off in (('anylink', dict(anylink=False)), ('props', dict(vars=False, defs=False)),
                      ('media', dict(custommedia=False, mdefs=False)), ('ranges', dict(ranges=False)), ('calc', dict(math=False))):
        random_docs(chk, chk.scale(250, 4000), [vlib.opts(name), vlib.opts()], off, name=name)
    return chk.finish()


def t02(prop):
    chk = begin(prop)
    o = [vlib.opts('anylink')]
    enumerated(chk, 'anylink', 4, o, 300, 300)
    enumerated(chk, 'anylink', 5, o, 2500, 60000)
    random_docs(chk, chk.scale(1500, 25000), [vlib.opts('anylink'), vlib.opts('anylink', 'ranges')], dict(anylink=True, vars=False, defs=False, custommedia=False, mdefs=False))
    limits(chk, o[0], ':any-link', [t % (':any-link' * n, ' > :any-link' * (n // 2)) for n in (2, 7, 10, 12, 14, 15, 16, 17, 18, 20, 24, 33, 64, 65, 1000)
                                    for t in ('%s%s{b:c}', '@media print{a,%s,d%s{b:c}}', 'a:not(%s):is(b%s){b:c}', '%s,a%s{b:c}')])
    return chk.finish()


def t03(prop):
    chk = begin(prop)
    o = [vlib.opts('props')]
    enumerated(chk, 'vars', 3, o, 4000, 80000, noerr=False)
    random_docs(chk, chk.scale(1500, 25000), o, dict(anylink=False, custommedia=False, mdefs=False))
    limits(chk, o[0], 'var(--v', [':root{%s--v%d:1px}a{b:var(--v0)}' % (''.join('--v%d:%s;' % (i, ' '.join(['var(--v%d)' % (i + 1)] * k)) for i in range(n)), n)
                                  for k, ns in ((1, (3, 50, 500, 999, 1000, 1001, 1500, 3000)), (2, (3, 10, 15, 19, 20, 21, 30, 60)), (9, (2, 4, 6, 7, 9, 20)))
                                  for n in ns if k ** n < 70000 or k ** n > 10 ** 6])
    return chk.finish()


def t04(prop):
    chk = begin(prop)
    o = [vlib.opts('media')]
    enumerated(chk, 'cmedia', 4, o, 3000, 12000)
    enumerated(chk, 'cmedia', 5, o, 1000, 40000)
    random_docs(chk, chk.scale(1200, 20000), o, dict(anylink=False, vars=False, defs=False))
    css.check(chk, project_cases(chk, chk.scale(300, 6000), 'p', ['pass', 'follow'], o, dict(anylink=False, vars=False, defs=False), True, failures=False))
    limits(chk, o[0], '(--v', ['%s@custom-media --v%d (color);@media (--v0){a{b:c}}' % (''.join('@custom-media --v%d %s;' % (i, ' and '.join(['(--v%d)' % (i + 1)] * k)) for i in range(n)), n)
                               for k, ns in ((1, (3, 50, 500, 999, 1000, 1001, 1500, 3000)), (2, (3, 10, 15, 19, 20, 21, 30, 60)), (9, (2, 4, 6, 7, 9, 20)))
                               for n in ns if k ** n < 70000 or k ** n > 10 ** 6])
    return chk.finish()


def t05(prop):
    chk = begin(prop)
    o = [vlib.opts('ranges')]
    enumerated(chk, 'range', 4, o, 6000, 160000, group=5)
    random_docs(chk, chk.scale(1500, 25000), o, dict(anylink=False, vars=False, defs=False, custommedia=False, mdefs=False))
    css.check(chk, project_cases(chk, chk.scale(300, 6000), 'p', ['pass', 'follow'], o, dict(anylink=False, vars=False, defs=False, custommedia=False, mdefs=False), True, failures=False))
    return chk.finish()


def t06(prop):
    chk = begin(prop)
    if frame.SCALE >= 1:
        r = vlib.tlc('DecimalCheck', cfg='DecimalCheck.cfg' if chk.thorough else 'DecimalQuick.cfg', timeout=3000)
        if not r.ok:
            raise vlib.CheckError('DecimalCheck: ' + r.out[-2000:])
        chk.tlc(r)
    o = [vlib.opts('calc')]
    enumerated(chk, 'calc', 4, o, 200, 200)
    enumerated(chk, 'calc', 5, o, 4000, 11000)
    random_docs(chk, chk.scale(1500, 25000), o, dict(anylink=False, vars=False, defs=False, custommedia=False, mdefs=False, mathy=True))
    return chk.finish()


def t08(prop):
    chk = begin(prop)
    combos = [vlib.opts(*s) for k in (2, 3, 4, 5) for s in itertools.combinations(OPTS, k)]
    random_docs(chk, chk.scale(2500, 40000), combos)
    css.check(chk, project_cases(chk, chk.scale(300, 6000), 'p', ['pass', 'follow'], combos, None, True, failures=False))
    enumerated(chk, 'cmedia', 4, [vlib.opts('media', 'ranges'), vlib.opts(*OPTS)], 1200, 12000)
    enumerated(chk, 'vars', 3, [vlib.opts('props', 'calc'), vlib.opts(*OPTS)], 1200, 40000)
    return chk.finish()


# ---------------------------------------------------------------- projects
def project_cases(chk, count, name, modes, combos, feats=None, conds=None, **kw):
    cases = []
    for i in range(count):
        r = rng(chk, name, i)
        mode = modes[i % len(modes)]
        o = r.choice(combos)
        p = projects.project(r, feats_for(o, **(feats or {})), conds=False if mode == 'inline' else conds, **kw)
        entries = ['main.css']
        if r.random() < .3:
            entries.append(r.choice(list(p.files)))
        entries = sorted(set(entries) - p.broken) if mode == 'inline' else entries
        cases.append(css.case('%s%d' % (name, i), p.files,
                              [css.run(entries, o, mode, fails=p.fails(entries), expect=p.outputs(entries, mode))], p.imports))
    return cases


def c07(prop):
    chk = begin(prop)
    css.check(chk, project_cases(chk, chk.scale(1400, 20000), 'p', ['inline'], [vlib.opts()]))
    css.check(chk, project_cases(chk, chk.scale(300, 5000), 'c', ['inline'], [vlib.opts()], acyclic_bias=0, files=(2, 3, 5)))
    return chk.finish()


def c08(prop):
    chk = begin(prop)
    css.check(chk, project_cases(chk, chk.scale(1200, 20000), 'p', ['pass', 'follow'], [vlib.opts()]))
    css.check(chk, project_cases(chk, chk.scale(400, 5000), 't', ['pass', 'follow'], allopts()))
    return chk.finish()


def t07(prop):
    chk = begin(prop)
    combos = allopts()[1:]
    css.check(chk, project_cases(chk, chk.scale(1200, 20000), 'p', ['inline'], combos, failures=False))
    css.check(chk, project_cases(chk, chk.scale(300, 5000), 'f', ['inline'], [vlib.opts(*OPTS)], files=(3, 4, 5)))
    return chk.finish()


REGISTRY = dict(S01=s01, S02=s02, S03=s03, S04=s04, S05=s05, S07=s07, T01=t01, T02=t02, T03=t03, T04=t04, T05=t05, T06=t06, T07=t07, T08=t08, C07=c07, C08=c08)
