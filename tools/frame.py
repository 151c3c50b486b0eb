"""What every check does the same way: collect violations, write evidence, exit."""
import json, os, sys, time, traceback
import vlib

REPLAYS = os.path.join(vlib.VERIF, 'replays')
SCALE = float(os.environ.get('VERIF_SCALE', '1') or '1')   # for experiments: how many cases, relative to the tier
KNOWN = os.path.join(vlib.VERIF, 'known_findings.jsonl')


def known(prop):
    """Listed findings of a property (not the fixed ones)."""
    out = []
    with open(KNOWN) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith('fixed:'):
                continue
            e = json.loads(line)
            if e['property'] == prop:
                out.append(e)
    return out


def plain(v):
    return v.decode('utf-8', 'replace') if isinstance(v, bytes) else repr(v)


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.start = time.time()
        self.violations = []       # (what, replay data)
        self.findings = []         # known findings seen
        self.broken = []           # things that kept the check from deciding
        self.cov = {}
        self.samples = []
        self.states = self.transitions = 0
        self.assumptions = []

    @property
    def thorough(self):
        return vlib.TIER == 'thorough'

    def scale(self, quick, thorough):
        k = thorough if self.thorough else quick
        return max(1, int(k * SCALE)) if SCALE != 1 else k

    def elapsed(self):
        return time.time() - self.start

    def add(self, key, k=1):
        self.cov[key] = self.cov.get(key, 0) + k

    def sample(self, s, most=3):
        if len(self.samples) < most:
            self.samples.append(s)

    def violation(self, what, **data):
        self.violations.append((what, data))

    def tlc(self, r):
        """Count what a TLC run explored."""
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.init)

    def finish(self):
        cov = dict(self.cov)
        cov.setdefault('samples', self.samples or ['(none)'])
        cov['states'] = self.states
        cov['transitions'] = self.transitions
        if self.level == 'model_checking':
            cov.setdefault('traces_validated_against_impl', 0)
        ev = dict(property=self.prop, tier=vlib.TIER if vlib.TIER in ('quick', 'thorough') else 'quick', seed=vlib.SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(self.elapsed(), 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(vlib.VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=plain)
        for what in self.findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        if self.violations:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (what, data) in enumerate(self.violations[:5]):
                path = os.path.join(REPLAYS, '%s-%d-%d.json' % (self.prop, vlib.SEED, i))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, what=what, **data), f, indent=1, default=plain)
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
                print('  ' + what[:600].replace('\n', '\n  '))
            if len(self.violations) > 5:
                print('  and %d more' % (len(self.violations) - 5))
            sys.stdout.flush()
            return 1
        if self.broken:
            print('ERROR: %d cases could not be decided: %s' % (len(self.broken), str(self.broken[0])[:1500]))
            return 2
        short = {k: v for k, v in cov.items() if k not in ('samples', 'rule')}
        print('ok property=%s %s %.1fs' % (self.prop, json.dumps(short), self.elapsed()))
        return 0


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print('usage: check.py PROPERTY\n' + ' '.join(sorted(registry)))
        return 2
    try:
        return registry[sys.argv[1]](sys.argv[1])
    except vlib.CheckError as e:
        print('ERROR:', str(e)[:3000])
        return 2
    except Exception:
        traceback.print_exc()
        return 2
