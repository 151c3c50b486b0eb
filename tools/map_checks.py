"""M01: the source maps of what the compiler makes, judged by SourceMap.tla."""
import json, os, random, re, shutil, tempfile
import css, css_checks, frame, gen, projects, vlib

ASSUME = css_checks.ASSUME + ['where a rule comes from is decided only for outputs that mean what the reference semantics says (the others are reported by S02, T01-T08)',
                              'empty rules are not looked for in the map']


def rng(chk, *key):
    return random.Random('%s/%d/%s' % (chk.prop, vlib.SEED, key))


def parse_map(raw):
    """(mappings, content, what is wrong)"""
    try:
        m = json.loads(raw.decode('utf-8'))
    except (ValueError, UnicodeDecodeError) as e:
        return None, None, 'is not JSON: %s' % e
    if m.get('version') != 3:
        return None, None, 'has version %r' % m.get('version')
    if not isinstance(m.get('mappings'), str):
        return None, None, 'has no mappings'
    if len(m.get('sources') or []) != 1 or len(m.get('sourcesContent') or []) != 1 or not isinstance(m['sourcesContent'][0], str):
        return None, None, 'has %r sources and %r contents' % (len(m.get('sources') or []), len(m.get('sourcesContent') or []))
    return m['mappings'], m['sourcesContent'][0], None


def check(chk, cases, batch=600):
    for at in range(0, len(cases), batch):
        part = cases[at:at + batch]
        recs, info = [], {}
        for c, res in zip(part, css.run_drv(part)):
            names = list(c['files'])
            num = {n: i + 1 for i, n in enumerate(names)}
            outs, origin = [], []
            for k, (r, got) in enumerate(zip(c['runs'], res['runs'])):
                for name in sorted(got['outs']):
                    text, raw = vlib.split_map(got['outs'][name])
                    chk.add('outputs_checked')
                    if raw is None:
                        chk.violation('case %s run %d: the output of %s does not end with a source map' % (c['id'], k, name), case=css.to_drv(c), output=got['outs'][name])
                        continue
                    mappings, content, wrong = parse_map(raw)
                    if wrong:
                        chk.violation('case %s run %d: the source map of %s %s' % (c['id'], k, name, wrong), case=css.to_drv(c), map=raw)
                        continue
                    outs.append(dict(f=num[name], o=r['o'], inl=r['mode'] == 'inline', t=vlib.codes(text), map=[ord(x) for x in mappings], content=[ord(x) for x in content]))
                    origin.append((k, name, mappings))
            if outs:
                recs.append(dict(id=c['id'], files=[[ord(x) for x in (t if isinstance(t, str) else t.decode('utf-8'))] for t in (c['files'][n] for n in names)],
                                 imports=[dict(f=num[f], s=vlib.codes(s), g=num[g]) for f, s, g in c['imports']], outs=outs))
                info[c['id']] = (c, res, origin)
        lines = []
        for l in judge(chk, recs):
            id = l.split('"')[3]
            c, res, origin = info[id]
            i = int(re.match(r'<<"MISMATCH", "[^"]*", <<(\d+), ', l).group(1))
            k, name, mappings = origin[i - 1]
            chk.violation('case %s run %d: map of %s: %s\nfiles: %s\noutput: %r\nmappings: %s' %
                          (id, k, name, l[len(id) + 17:], c['files'], vlib.split_map(res['runs'][k]['outs'][name])[0], mappings), case=css.to_drv(c))
        chk.sample(dict(files=part[0]['files'], runs=css.to_drv(part[0])['runs']))


def judge(chk, recs):
    if not recs:
        return []
    d = tempfile.mkdtemp(prefix='cssc-rec-')
    try:
        path = os.path.join(d, 'cases.ndjson')
        with open(path, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        t = vlib.tlc('SourceMap', env={'CASES': path}, stack='256m')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not t.ok or t.distinct != 2 * len(recs):
        if len(recs) == 1:
            chk.broken.append((recs[0]['id'], t.out[-1500:]))
            return []
        if 'Parsing or semantic analysis failed' in t.out:
            raise vlib.CheckError(t.out[-3000:])
        return judge(chk, recs[:len(recs) // 2]) + judge(chk, recs[len(recs) // 2:])
    chk.tlc(t)
    chk.add('programs', len(recs))
    chk.add('disagreements_checked', sum(len(r['outs']) for r in recs))
    return t.prints('MISMATCH')


# Characters that JSON, Go and JavaScript quote in ways of their own.
ODD = ['\x01', '\x07', '\x0b', '\x1b', '\x7f', '\x80', '\x9f', '\xad', '\u200b', '\u2028', '\u2029', '\ufeff', '\ufffd', '\uffff', '\U000e0001', '\U0010ffff', '<&>', "'", '/']
NEWLINES = ['\n', '\r\n', '\r', '\n']


def stylesheet(r, feats, n=None):
    """A document whose parts have newlines of different kinds."""
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        style = r.choice(['mixed', 'mixed', 'mixed', 'pretty', 'min'])
        g = gen.Gen(r, **dict(feats, defs=False, mdefs=False) if parts else feats)
        parts.append(gen.render(g.stylesheet(n), gen.Layout(r, style, r.choice(NEWLINES))))
    return r.choice(['', '', r.choice(NEWLINES), ' ', '/* é\U0001f600 */', '\t', '/*%s*/' % r.choice(ODD)]).join(parts)


def large(r, k):
    """Rules that are far apart, on one line or on many."""
    wide = r.choice(['x', 'x', 'é', '\U0001f600', '中'] if r.random() < .7 else ODD)
    out = []
    for i in range(k):
        gap = r.choice([0, 1, 14, 15, 16, 17, 31, 32, 33, 100, 511, 512, 513, 1023, 1024, 2000])
        style = r.random()
        if style < .4:
            out.append('/*' + wide * gap + '*/')
        elif style < .7:
            out.append(r.choice(NEWLINES) * min(gap, 600) + ' ' * r.choice([0, 1, 16, 33]))
        elif style < .85:
            out.append('/*' + ''.join(r.choice(['\n', '\r', '\r\n', wide, wide]) for _ in range(min(gap, 300))) + '*/')
        out.append(r.choice(['a%d{b:c}' % i, 'a%d{b:"%s"}' % (i, wide * min(gap, 600)), '.%s%d{content:"x\\%sy"}' % (wide if wide not in ODD else 'x', i, r.choice(NEWLINES)),
                             '@media print{a%d{b:c}c{d:e}}' % i, '@font-face{font-family:x%d}' % i, '@keyframes k%d{from{a:b}50%%{a:c}}' % i]))
    return ''.join(out)


def huge(r):
    """Columns and lines of five digits and more."""
    gap = r.choice([16300, 16383, 16384, 16385, 16400, 32767, 32768, 40000])

    def filler(total, one, sep):
        # in pieces, which TLC evaluates faster
        out = []
        while total > 0:
            piece = one * min(total, 400)
            out.append(piece if sep else '/*' + piece[:max(0, min(total, 400) - 4)] + '*/')
            total -= 400
        return sep.join(out)
    if r.random() < .5:
        return 'a{b:c}' + filler(gap, 'x', '') + 'd{e:f}g{h:i}' + '\n' * 3 + 'j{k:l}'
    return 'a{b:c}' + filler(gap, r.choice(['\n', '\r']), '/**/') + ' d{e:f}\ng{h:i}'


def m01(prop):
    chk = frame.Check(prop, css_checks.LEVEL)
    chk.assumptions = ASSUME
    combos = css_checks.allopts()
    cases = []
    for i in range(chk.scale(900, 25000)):
        r = rng(chk, 'doc', i)
        o = combos[i % len(combos)] if i % 2 else vlib.opts()
        cases.append(css_checks.single('d%d' % i, stylesheet(r, css_checks.feats_for(o)), o))
    for i in range(chk.scale(200, 3000)):
        r = rng(chk, 'large', i)
        cases.append(css_checks.single('l%d' % i, large(r, r.choice([3, 8, 20])), vlib.opts()))
    check(chk, cases)
    check(chk, [css_checks.single('h%d' % i, huge(rng(chk, 'huge', i)), vlib.opts()) for i in range(chk.scale(6, 30))], batch=8)
    check(chk, css_checks.project_cases(chk, chk.scale(500, 8000), 'i', ['inline', 'follow', 'pass'], [vlib.opts(), vlib.opts(), vlib.opts(*css_checks.OPTS)]))
    return chk.finish()


REGISTRY = dict(M01=m01)
