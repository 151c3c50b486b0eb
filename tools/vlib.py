"""Shared machinery: build the harness, run the real code, run TLC."""
import base64, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, '.build')
REPO = os.environ.get('VERIF_REPO', '/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')


class CheckError(Exception):
    pass


def build(race=False):
    out = os.path.join(BUILD, 'race' if race else 'plain')
    r = subprocess.run([os.path.join(VERIF, 'harness', 'build.sh'), out] + (['race'] if race else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('harness build failed:\n' + r.stdout)
    return out


_bins = {}


def binary(name, race=False):
    if race not in _bins:
        _bins[race] = build(race)
    return os.path.join(_bins[race], name)


def b64(s):
    if isinstance(s, str):
        s = s.encode('utf-8')
    return base64.b64encode(s).decode()


def unb64(s):
    return base64.b64decode(s)


def drv(cases, timeout=20, jobs=8, race=False):
    """cases: [{id, files:{path:text|bytes}, runs:[...]}] -> results in order."""
    data = []
    for c in cases:
        c = dict(c)
        c['files'] = {k: b64(v) for k, v in c['files'].items()}
        data.append(json.dumps(c))
    p = subprocess.run([binary('drv', race), '-j', str(jobs), '-t', str(timeout)], input=('\n'.join(data) + '\n').encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise CheckError('driver failed: ' + p.stderr.decode('utf-8', 'replace'))
    res = [json.loads(l) for l in p.stdout.splitlines()]
    if len(res) != len(cases):
        raise CheckError('driver returned %d results for %d cases' % (len(res), len(cases)))
    for r in res:
        for run in r['runs']:
            fix(run)
    return res


TRACE = re.compile(r'^(\S+?)(: [^\n]*)?\n\t[^\n]+\.(?:go|s):\d+(?:\n|\Z)', re.M)


def untraced(text):
    """An error without the stack traces in it, which depend on how Compile is called and on how it is written; what
    was added to the error on the way stays."""
    if isinstance(text, bytes):
        return untraced(text.decode('latin-1')).encode('latin-1')
    return TRACE.sub(lambda m: m.group(2)[2:] + '\n' if m.group(2) else '', text)


def fix(run):
    run['outs'] = {k: unb64(v) for k, v in (run.get('outs') or {}).items()}
    run['errs'] = [untraced(e) for e in run.get('errs') or []]
    for a in (run.get('again') or {}).values():
        fix(a)


MAPRE = re.compile(rb'\n/\*# sourceMappingURL=data:application/json;base64,([A-Za-z0-9+/=]*) \*/\n\Z')


def split_map(out):
    """(rules text, source map JSON bytes or None)"""
    m = MAPRE.search(out)
    if not m:
        return out, None
    return out[:m.start()], base64.b64decode(m.group(1))


def codes(b):
    """Code points of a text, as the CSS decoder sees it."""
    if isinstance(b, bytes):
        b = b.decode('utf-8', 'replace')
    if b.startswith('\ufeff'):
        b = b[1:]
    return [ord(c) for c in b]


class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r'Finished computing initial states: (\d+)', out)
        self.init = int(m.group(1)) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out

    def prints(self, tag):
        return [l for l in unwrap(self.out) if l.startswith('<<"%s"' % tag)]


def tlc(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap='6g', stack='64m'):
    meta = tempfile.mkdtemp(prefix='cssc-tlc-')
    try:
        cmd = ['java', '-Xss' + stack, '-Xmx' + heap, '-XX:+UseParallelGC', '-cp',
               JAR + ':' + os.path.join(os.path.dirname(JAR), 'CommunityModules-deps.jar'),
               'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-nowarning', '-config', cfg or module + '.cfg'] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return TLCResult(p.stdout, p.returncode)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def unwrap(out):
    """TLC wraps long printed values over several lines: undo that."""
    lines, cur = [], None
    for l in out.splitlines():
        if l.startswith('<< "'):
            l = '<<' + l[3:]
        if l.startswith('<<"'):
            if cur is not None:
                lines.append(cur)
            cur = l
        elif cur is not None and l.startswith((' ', '\t')):
            cur = cur + ('' if cur.endswith('<<') else ' ') + l.strip().replace('<< ', '<<').replace(' >>', '>>')
        else:
            if cur is not None:
                lines.append(cur)
            cur = None
    if cur is not None:
        lines.append(cur)
    return lines


def decode_codes(s):
    """Make <<97, 98>> readable in TLC output."""
    def f(m):
        nums = [int(x) for x in m.group(1).split(',')]
        if all(32 <= x < 0x110000 for x in nums):
            return repr(''.join(map(chr, nums)))
        return m.group(0)
    return re.sub(r'<<(-?\d+(?:, -?\d+)*)>>', f, s)


def css_check(cases, verbose=False, timeout=800):
    """Check records against CssCheck.tla.  Returns (mismatches, TLCResult)."""
    d = tempfile.mkdtemp(prefix='cssc-rec-')
    try:
        path = os.path.join(d, 'cases.ndjson')
        with open(path, 'w') as f:
            for c in cases:
                f.write(json.dumps(c) + '\n')
        r = tlc('CssCheck', env={'CASES': path, 'VERBOSE': '1' if verbose else '0'}, timeout=timeout)
        if not r.ok or r.distinct != 2 * len(cases):
            raise CheckError('TLC did not check all %d records (%d states):\n%s' % (len(cases), r.distinct, r.out[:200] + r.out[max(0, r.out.find('Error:')):][:2500]))
        return [l for l in unwrap(r.out) if l.startswith('<<"MISMATCH"')], r
    finally:
        shutil.rmtree(d, ignore_errors=True)


NOOPT = dict(ranges=False, anylink=False, props=False, media=False, calc=False)


def opts(*on):
    return {k: k in on for k in NOOPT}


SPECIAL = {'LF': b'\n', 'CR': b'\r', 'CRLF': b'\r\n', 'FF': b'\x0c', 'TAB': b'\t', 'DQ': b'"', 'BS': b'\\',
           'NUL': b'\x00', 'XFF': b'\xff', 'BOM': b'\xef\xbb\xbf', 'CRLFTAB': b'\r\n\t', ' /*LF*/LF': b' /*\n*/\n'}


def derive(kind, depth):
    """Every document CssGen.tla derives: [[terminal, ...]] and TLC's result."""
    r = tlc('CssGen', env={'KIND': kind, 'DEPTH': str(depth)})
    if not r.ok:
        raise CheckError('CssGen %s/%d failed: %s' % (kind, depth, r.out[-1500:]))
    docs = [l[3:-1].replace('\\"', '"').replace('\\\\', '\\').split('`') for l in r.out.splitlines() if l.startswith('"G`')]
    docs.sort()
    return docs, r


def spell(terminals):
    return b''.join(SPECIAL.get(t, t.encode()) for t in terminals)
