"""Cases for CssCheck.tla: run projects through the real compiler and have TLC
compare what came out with the reference semantics."""
import re
import vlib

DEADLINE = 20      # seconds a single small compilation may take


def case(id, files, runs, imports=(), like=(), **kw):
    """files: {name: text}; imports: [(file, specifier, target file)], or None: by their paths.
    A run: dict(entries, mode, o) plus
      again   recompile the outputs
      expect  names that have to come out (default: the entries)
      fails   how many import failures are reported
      noerr   do not check errors
      maybe   may be reported instead
      raws    {name: [texts that are in its output verbatim]}
      like    {name: name of the file it is compared with}
      mixed   what the options would transform may be as it was
      strict  compare without tolerances"""
    return dict(id=id, files=files, runs=runs, imports=imports and list(imports), likes=list(like), **kw)


def run(entries, o=None, mode='pass', **kw):
    return dict(entries=[entries] if isinstance(entries, str) else list(entries), mode=mode, o=o or vlib.opts(), **kw)


def to_drv(c):
    return dict(id=c['id'], files=c['files'],
                runs=[{k: r[k] for k in ('entries', 'mode', 'o', 'again', 'group') if k in r} for r in c['runs']])


def run_drv(cases, timeout=DEADLINE):
    """Runs the cases; crashes and timeouts are tried once more, alone."""
    res = vlib.drv([to_drv(c) for c in cases], timeout=timeout)
    for i, r in enumerate(res):
        if any(x['status'] in ('timeout', 'crash') for x in r['runs']):
            res[i] = vlib.drv([to_drv(cases[i])], timeout=2 * timeout, jobs=1)[0]
    return res


def record(c, res):
    """(record, where each of its outputs came from, problems)"""
    names = list(c['files'])
    num = {n: i + 1 for i, n in enumerate(names)}
    outs, origin, problems, same, groups = [], [], [], [], []
    for k, (r, got) in enumerate(zip(c['runs'], res['runs'])):
        if got['status'] != 'ok':
            problems.append((k, '%s: %s' % (got['status'], got.get('detail', '')[:400])))
            continue
        if r.get('maybe') and got['errs']:
            continue
        mine = []
        complete = True
        for name in r.get('expect', r['entries']):
            if name not in got['outs']:
                problems.append((k, 'no output for %s; errors: %s' % (name, [brief(e) for e in got['errs'][:3]])))
                complete = False
                continue
            text, _ = vlib.split_map(got['outs'][name])
            src = r.get('like', {}).get(name, name)
            o = dict(f=num[src], o=r['o'], inl=r['mode'] == 'inline', t=vlib.codes(text), strict=bool(r.get('strict')), loose='like' in r, mixed=bool(r.get('mixed')),
                     raws=[vlib.codes(x) for x in r.get('raws', {}).get(name, [])])
            outs.append(o)
            origin.append((k, name))
            mine.append(len(outs))
            if r.get('again'):
                a = (got.get('again') or {}).get(name)
                if not a or a['status'] != 'ok' or name not in a['outs']:
                    problems.append((k, 'output of %s does not compile again: %s' %
                                     (name, (a or {}).get('detail') or [brief(e) for e in (a or {}).get('errs', [])[:3]])))
                    continue
                if {message(e) for e in a['errs']} - {message(e) for e in got['errs']}:
                    problems.append((k, 'compiling the output of %s again reports new errors: %s' % (name, [brief(e) for e in a['errs'][:3]])))
                t2, _ = vlib.split_map(a['outs'][name])
                outs.append(dict(o, t=vlib.codes(t2), raws=[]))
                origin.append((k, name + ' (again)'))
                same.append(dict(i=len(outs) - 1, j=len(outs)))
        if complete and not (r.get('noerr') or r.get('mixed')):
            groups.append(dict(outs=mine, errs=len(got['errs']), fails=r.get('fails', 0)))
    rec = dict(id=c['id'], files=[vlib.codes(c['files'][n]) for n in names],
               imports=[dict(f=num[f], s=vlib.codes(s), g=num[g]) for f, s, g in c['imports'] or ()],
               paths=[vlib.codes(n) for n in names] if c['imports'] is None else [],
               like=[dict(i=num[a], j=num[b]) for a, b in c['likes']], same=same, outs=outs, groups=groups)
    return rec, origin, problems


def brief(e):
    return e.split('\n    ')[0][:300]


def message(e):
    """An error without its location and the text there."""
    lines = e.split('\n')
    return lines[1] if len(lines) > 1 else lines[0]


def safe_check(recs):
    """Like vlib.css_check, but a record TLC cannot evaluate does not hide the others.
    (mismatch lines, TLC results, ids that could not be evaluated)"""
    try:
        mm, r = vlib.css_check(recs)
        return mm, [r], []
    except vlib.CheckError as e:
        if len(recs) == 1:
            return [], [], [(recs[0]['id'], str(e)[-1500:])]
        if 'Parsing or semantic analysis failed' in str(e):
            raise
        h = len(recs) // 2
        a, b = safe_check(recs[:h]), safe_check(recs[h:])
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def check(chk, cases, batch=1500, need=None):
    """Run and judge cases. need: which verdicts count (default all)."""
    for at in range(0, len(cases), batch):
        part = cases[at:at + batch]
        results = run_drv(part)
        recs, info = [], {}
        for c, res in zip(part, results):
            rec, origin, problems = record(c, res)
            for k, what in problems:
                if need is None or 'output' in need:
                    chk.violation('case %s run %d: %s' % (c['id'], k, what), case=to_drv(c), run=k,
                                  errors=res['runs'][k]['errs'] if k < len(res['runs']) else None)
            chk.add('programs')
            chk.add('outputs_checked', len(rec['outs']))
            if rec['outs']:
                recs.append(rec)
                info[c['id']] = (c, res, rec, origin)
        if not recs:
            continue
        mm, rs, bad = safe_check(recs)
        for r in rs:
            chk.tlc(r)
        chk.broken += bad
        chk.add('disagreements_checked', sum(len(r['outs']) + len(r['same']) for r in recs))
        for line in mm:
            id = re.match(r'<<"MISMATCH", "([^"]*)", ', line).group(1)
            c, res, rec, origin = info[id]
            why = line[line.index(id) + len(id) + 3:]
            if 'GENERATOR' in why:
                raise vlib.CheckError('generator made two layouts that are not alike: %r' % (c['files'],))
            verdicts = set(re.findall(r'"(\w+)"', why))
            if need is not None and not (verdicts & set(need)):
                continue
            detail = ''
            if len(chk.violations) < 3:
                try:
                    _, r = vlib.css_check([rec], verbose=True)
                    detail = '\n'.join(vlib.decode_codes(l)[:4000] for l in vlib.unwrap(r.out)
                                       if l.startswith(('<<"EXPECTED"', '<<"ACTUAL"')))
                except vlib.CheckError:
                    pass
            outs = {'%d:%s' % o: ''.join(map(chr, x['t'])) for o, x in zip(origin, rec['outs'])}
            chk.violation('case %s: output differs from the reference semantics: %s\nfiles: %s\noutputs: %s' %
                          (id, why, c['files'], outs), case=to_drv(c), verdict=why, outputs=outs,
                          errors=[x['errs'] for x in res['runs']], explanation=detail)
        for c in part[:2]:
            chk.sample(dict(files=c['files'], runs=to_drv(c)['runs']), most=2)


def probes(chk, findings):
    """Known findings: still there?  They are judged strictly."""
    for f in findings:
        c = case(f['id'], {'a.css': f['input']}, [run('a.css', vlib.opts(*f.get('options', [])), strict=True)])
        res = run_drv([c])[0]
        rec, _, problems = record(c, res)
        mm = []
        if rec['outs']:
            mm, r = vlib.css_check([rec])
            chk.tlc(r)
        if problems or mm:
            chk.findings.append(f['what'])
