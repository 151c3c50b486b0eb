"""S06: where errors are reported, judged by Location.tla."""
import json, os, re, shutil, tempfile
import css, css_checks, frame, gen, map_checks, vlib

MARK = '\x01'       # just before the text an error is about
ALT = '\x02'        # another place that will do

# What is wrong in a value, and the transforms that notice.
VALUES = [
    ('props', MARK + 'var()'), ('props', MARK + 'var( )'), ('props', MARK + 'var(1px)'), ('props', MARK + 'var("x", 1px)'), ('props', MARK + 'VAR(--nowhere-1)'),
    ('props', MARK + 'var(--nowhere-2)'), ('props', MARK + 'var( --nowhere-3 )'), ('props', 'f(' + MARK + 'var(--nowhere-4), 2px)'), ('props', 'var(--nowhere-5,' + MARK + 'var(--nowhere-6))'),
    ('props', '[x ' + MARK + 'var(--nowhere-7)]'), ('props', '"é\\\n中" ' + MARK + 'var(--nowhere-8) url(a/b.png)'), ('props', 'a /*\n\r\n\r*/ ' + MARK + 'var(--nowhere-9)'),
    ('props', MARK + 'var(--nowhere-10) ' + '!important'), ('props', '1px\t' + MARK + 'var(--nowhere-11)'),
    ('calc', ALT + 'calc(' + MARK + '1px*2px)'), ('calc', ALT + 'calc(' + MARK + '1px / 2px)'), ('calc', ALT + 'calc( ' + MARK + '3 + 2px )'), ('calc', ALT + 'calc(' + MARK + '3px - 2)'),
    ('calc', ALT + 'calc(/*\n*/' + MARK + '4em/0)'), ('calc', 'f(1, ' + ALT + 'calc(' + MARK + '1px*2px))'), ('calc', 'é "\U0001f600" ' + ALT + 'CALC(' + MARK + '1px*2px)'),
]
# Where such a value can be.
AROUND = ['a{b:%s}', 'a{b:%s;}', 'a{é:中;b:%s;c:d}', '@media print{a{b:%s}}', '@media print{\n\t@supports (a:b){a{b: %s }}}', '@font-face{b:%s}', '@keyframes k{from{b:%s}}',
          'a{bad declaration;b:%s}', 'a{b:"\\\r\n\\\nx";\tc:%s}', 'a{/*\r\r\n*/b:%s}', 'a{b:c}a{b:%s}', '.é:hover>a[b="\\\r"]{b:%s}', 'a{b:url( x\n);c:%s}', 'a{b:%s\n}', 'a{\r\nb\t:\r%s}', '@page :first{b:%s}']
# What a file does not survive.
FATAL = [
    'a{b:c} :' + MARK + '{}', 'a[b' + MARK + '{c:d}', 'a{b:' + MARK + '"c\n"}', "a{b:'x' " + MARK + "'c\n'}", 'a{b:c' + MARK + '/* ', MARK + '}d{e:f}', 'a{' + MARK, 'a{b:c' + MARK, 'a b' + MARK,
    '@media' + MARK, '@media (' + MARK, '@media x{' + MARK, '@media x{a{b:c}' + MARK, '@keyframes x{' + MARK + 'foo{a:b}}', '@keyframes ' + MARK + '{}', '@import ' + MARK + 'foo;',
    '@custom-media ' + MARK + ';', 'a:nth-child(' + MARK + 'x){b:c}', 'a,' + MARK + '{b:c}', MARK + '(a){b:c}', 'a:' + MARK + '{b:c}', 'a[' + MARK + ']{b:c}', 'a[b=' + MARK + ']{}', 'a[b~' + MARK + 'c]{d:e}',
    MARK + '.1{a:b}', 'a{b:c}' + MARK + '%{d:e}', '@media (1px>width<' + MARK + '2px){}', MARK + '"x"{a:b}', 'a{b:c;\r\n\t' + MARK + '"é\r\n}', 'a{b:"\\\r\n' + MARK * 0 + 'x"} ' + MARK + '5{}',
    'é ,' + MARK + '\U0001f600' * 0 + '{}', 'a:not(' + MARK + '){b:c}',
]


class File:
    def __init__(self):
        self.text, self.marks = '', []      # marks: [(must be reported, places)]

    def add(self, piece):
        at = []
        for ch in piece:
            if ch in (MARK, ALT):
                at.append(len(self.text) + 1)
            else:
                self.text += ch
        return at

    def problem(self, piece, must=True):
        self.marks.append([must, self.add(piece)])


def filler(r):
    """Something without problems."""
    k = r.random()
    nl = r.choice(map_checks.NEWLINES[:3])
    if k < .15:
        return ''
    if k < .3:
        return r.choice(['\n', '\r', '\r\n', '\f', '\t', ' ', '\n\r', '\r\r\n', '\n\n']) * r.choice([1, 1, 2, 5])
    if k < .45:
        return '/*' + ''.join(r.choice(['\n', '\r', '\r\n', 'x', 'é', '\U0001f600', '*', '/', '\t', '\f', ' ']) for _ in range(r.choice([0, 3, 20]))).replace('*/', '* ') + ' */'
    if k < .55:
        return 'a%s{b%s:%s"\\%s\\%s"}' % (nl, nl, nl, nl, r.choice(['\n', '\r\n', '\r', '"']))
    if k < .6:
        return '@media%sprint%s{a%s{b:c}}' % ((r.choice(['\t', nl]), nl, nl))
    feats = dict(math=False, malformed=r.random() < .5, decoys=False)
    text = gen.render(gen.Gen(r, **feats).stylesheet(r.choice([1, 2])), gen.Layout(r, r.choice(['mixed', 'mixed', 'min']), nl))
    return '' if 'calc(' in text.lower() else text


def content(r, f, o, fatal=None):
    """Fillers and problems."""
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        for _ in range(r.choice([0, 1, 2, 3])):
            f.add(filler(r))
        need, value = r.choice(VALUES)
        piece = r.choice(AROUND).replace('%s', value)
        if o[need]:
            f.problem(piece)
        else:
            f.add(piece)
    for _ in range(r.choice([0, 1, 2, 3])):
        f.add(filler(r))
    if fatal:
        f.marks = []
        f.problem(fatal)


def one(r, id):
    o = vlib.opts(*r.choice([['props'], ['calc'], ['props', 'calc'], css_checks.OPTS]))
    f = File()
    content(r, f, o, r.choice(FATAL) if r.random() < .4 else None)
    return dict(id=id, o=o, mode=r.choice(['pass', 'pass', 'follow', 'inline']), files={'a.css': f})


def defined(r, id):
    """Problems in definitions show where they are used (or where they are)."""
    o = vlib.opts('props', 'calc')
    f = File()
    f.add(filler(r))
    at = f.add(':root{--x:1px;--bad:' + r.choice(['calc(' + MARK + '1px*2px)', MARK + 'var(--nowhere)', ALT + 'f(' + MARK + 'var())']) + '}')
    for _ in range(r.choice([1, 2])):
        f.add(filler(r))
        f.marks.append([True, at + f.add(r.choice(AROUND).replace('%s', MARK + 'var(--bad)'))])
    f.add(filler(r))
    return dict(id=id, o=o, mode='pass', files={'a.css': f})


def several(r, id):
    """Files that import each other."""
    names = ['a.css', 'lib/b.css', 'c é.css', 'd.css'][:r.choice([2, 3, 4])]
    o = vlib.opts(*r.choice([['props', 'calc'], css_checks.OPTS]))
    mode = r.choice(['inline', 'follow'])
    fatal = {n: r.choice(FATAL) for n in names if r.random() < .2}
    files, edges = {}, {}
    for i, n in enumerate(names):
        f = files[n] = File()
        edges[n] = set()
        targets = [names[i + 1]] if i + 1 < len(names) else []
        targets += [x for x in names[i + 2:] if r.random() < .4]
        for t in targets:
            edges[n].add(t)
            for _ in range(r.choice([0, 1])):
                f.add(r.choice(['\n', '\r\n', '\r', '/*\n*/', ' ', '\t', '/* é */', '@charset "utf-8";']))
            spec = os.path.relpath(t, os.path.dirname(n) or '.')
            spec = spec if spec.startswith('.') else './' + spec
            imp = MARK + '@import%s%s%s' % (r.choice([' ', '\n', '/*\r\n*/', '']), r.choice(['"%s"', "'%s'", ' url("%s")']) % spec, r.choice(['', ' ', '\n']))
            if mode == 'inline' and r.random() < .15:
                f.problem(imp + ' print;')
            else:
                f.add((imp + ';').replace(MARK, ''))
        content(r, f, o, fatal.get(n))
    # what includes something broken may not be looked at any further
    for n in reversed(names):
        if mode == 'inline' and any(t in fatal or not all(m[0] for m in files[t].marks) or edges[n] & set(fatal) for t in edges[n]):
            for m in files[n].marks:
                m[0] = n in fatal
    if mode == 'inline' and fatal:
        for n in names:
            if n not in fatal:
                for m in files[n].marks:
                    m[0] = False
    # and what only a broken file leads to is not loaded
    seen, todo = set(), [names[0]]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            if x not in fatal:
                todo += edges[x]
    for n in names:
        if n not in seen:
            files[n].marks = [[False, m[1]] for m in files[n].marks]
    return dict(id=id, o=o, mode=mode, files=files)


HEAD = re.compile(r'\$R/([^\n]*):(\d+):(\d+)\n')


UNDER = re.compile(r'\t( *)(~*)(>?)')


def parse(err, num):
    """A rendered error, if it has a location, and its marks."""
    m = HEAD.match(err)
    if not m:
        return None
    tail = err[m.end():].split('\n')
    # the line itself can have a form feed or other odd characters, but no newline
    text = tail[-2] if len(tail) >= 2 else '?'
    under = UNDER.fullmatch(tail[-1])
    marks = dict(at=len(under.group(1)), n=len(under.group(2))) if under else dict(at=10 ** 6, n=0)
    return marks, dict(f=num.get(m.group(1), 0), l=int(m.group(2)), c=int(m.group(3)), text=[ord(x) for x in (text[1:] if text.startswith('\t') else '?' + text)])


def s06(prop):
    chk = frame.Check(prop, css_checks.LEVEL)
    chk.assumptions = ['the file, line, column and text of a line are read from the rendered error; the marks under the line may begin a column late per tab after the problem, as a test wants',
                       'for a problem in the definition of a custom property both the definition and its use will do',
                       'errors without a location (unresolved imports) are not looked at']
    cases = []
    for kind, k in ((one, chk.scale(2500, 40000)), (defined, chk.scale(300, 3000)), (several, chk.scale(900, 15000))):
        cases += [kind(map_checks.rng(chk, kind.__name__, i), '%s%d' % (kind.__name__[0], i)) for i in range(k)]
    for i, x in enumerate(FATAL + [a.replace('%s', v) for _, v in VALUES for a in AROUND[:4]]):
        for j, pre in enumerate(['', '\r\n\r', '\n\n/*\r*/\t', '/*é*/']):
            f = File()
            f.add(pre)
            f.problem(x)
            cases.append(dict(id='x%d-%d' % (i, j), o=vlib.opts('props', 'calc'), mode='pass', files={'a.css': f}))
    for at in range(0, len(cases), 1500):
        check(chk, cases[at:at + 1500])
    return chk.finish()


def check(chk, cases):
    as_drv = [css.case(c['id'], {n: f.text for n, f in c['files'].items()}, [css.run('a.css', c['o'], mode=c['mode'])]) for c in cases]
    recs, info = [], {}
    for c, d, res in zip(cases, as_drv, css.run_drv(as_drv)):
        got = res['runs'][0]
        if got['status'] != 'ok':
            chk.violation('case %s: %s: %s' % (c['id'], got['status'], got.get('detail', '')[:1000]), case=css.to_drv(d))
            continue
        num = {n: i + 1 for i, n in enumerate(c['files'])}
        if any(e.startswith('RENDER-PANIC') for e in got['errs']):
            chk.violation('case %s: an error cannot be rendered: %s\nfiles: %s' % (c['id'], got['errs'], d['files']), case=css.to_drv(d))
        reports = [x for x in (parse(e, num) for e in got['errs']) if x]
        recs.append(dict(id=c['id'], files=[[ord(x) for x in f.text] for f in c['files'].values()],
                         problems=[dict(must=must, at=[dict(f=num[n], p=p) for p in at]) for n, f in c['files'].items() for must, at in f.marks],
                         reports=[x for _, x in reports], marks=[m for m, _ in reports]))
        info[c['id']] = (d, got)
        chk.add('reports_checked', len(reports))
        chk.add('problems_planted', len(recs[-1]['problems']))
    for id, line in judge(chk, recs):
        d, got = info[id]
        chk.violation('case %s: %s\nfiles: %s\nerrors: %s' % (id, vlib.decode_codes(line)[len(id) + 17:], d['files'], got['errs']), case=css.to_drv(d), errors=got['errs'])
    chk.sample(dict(files=as_drv[0]['files'], errors=recs[0]['reports'] if recs else None))


def judge(chk, recs):
    if not recs:
        return []
    d = tempfile.mkdtemp(prefix='cssc-rec-')
    try:
        path = os.path.join(d, 'cases.ndjson')
        with open(path, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        t = vlib.tlc('Location', env={'CASES': path}, stack='256m')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not t.ok or t.distinct != 2 * len(recs):
        if len(recs) == 1:
            chk.broken.append((recs[0]['id'], t.out[-1500:]))
            return []
        if 'Parsing or semantic analysis failed' in t.out:
            raise vlib.CheckError(t.out[-3000:])
        return judge(chk, recs[:len(recs) // 2]) + judge(chk, recs[len(recs) // 2:])
    chk.tlc(t)
    chk.add('programs', len(recs))
    chk.add('disagreements_checked', sum(len(r['reports']) + len(r['problems']) for r in recs))
    return [(l.split('"')[3], l) for l in t.prints('MISMATCH')]


REGISTRY = dict(S06=s06)
