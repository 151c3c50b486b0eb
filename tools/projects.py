"""Random projects of several files that import each other."""
import os, random
import gen

NAMES = ['main.css', 'b.css', 'lib/c.css', 'd d.css', 'é.css', 'lib/deep/f.css', 'g.css', 'h.css']
BROKEN = ['a{content:"x\n}', 'a{b:c', '/* never closed', 'a{b:c}\n@media (min-width:1px){a{b:c}']


class Project:
    """files: {name: text}; imports: [(file, specifier, target)] that resolve to a loadable file;
    failing: [(file, specifier)] that do not resolve; broken: names that do not load."""
    def __init__(self):
        self.files, self.imports, self.failing, self.broken, self.edges = {}, [], [], set(), []

    def reachable(self, entries):
        seen, todo = set(), list(entries)
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            if f in self.broken:
                continue
            todo += [t for a, _, t in self.edges if a == f]
        return seen

    def outputs(self, entries, mode):
        return sorted((self.reachable(entries) if mode == 'follow' else set(entries)) - self.broken)

    def fails(self, entries):
        r = self.reachable(entries)
        return sum(1 for f, _ in self.failing if f in r and f not in self.broken) + len(r & self.broken)


def spell(rng, src, dst):
    """A relative specifier for dst in file src."""
    rel = os.path.relpath(dst, os.path.dirname(src) or '.')
    if not rel.startswith('../'):
        rel = './' + rel
    if rng.random() < .15:
        rel = rel[:-4]
    if rng.random() < .1:
        rel = './lib/.' + rel if rel.startswith('./') and not os.path.dirname(src) else rel
    return rel


def project(rng, feats, files=(2, 3, 4), cycles=True, failures=True, layout=None, conds=False, late=True, rules=(1, 2, 3), acyclic_bias=.7):
    p = Project()
    n = rng.choice(files)
    names = NAMES[:1] + rng.sample(NAMES[1:], n - 1)
    acyclic = not cycles or rng.random() < acyclic_bias
    for i, name in enumerate(names):
        broken = failures and i > 0 and rng.random() < .12
        specs = []
        count = rng.choice([0, 1, 1, 2, 3]) if i else rng.choice([1, 2, 2, 3])
        for _ in range(count):
            pool = names[i + 1:] if acyclic else names
            if failures and rng.random() < .12:
                s = rng.choice(['./missing.css', 'nowhere', './lib', '../../../../nope/x'])
                specs.append(s)
                p.failing.append((name, s))
                continue
            if not pool:
                continue
            t = rng.choice(pool)
            s = spell(rng, name, t)
            specs.append(s)
            p.edges.append((name, s, t))
        if broken:
            p.broken.add(name)
        k = rng.randint(0, len(specs)) if late and rng.random() < .4 else len(specs)
        g = gen.Gen(rng, **dict(feats, imports=specs[:k], late=specs[k:], conds=conds))
        doc = g.stylesheet(rng.choice(rules))
        text = gen.render(doc, gen.Layout(rng, *([layout] if layout else [])))
        p.files[name] = text + ('\n' + rng.choice(BROKEN) if broken else '')
    p.imports = [(f, s, t) for f, s, t in p.edges if t not in p.broken]
    return p


def copied(rng, p):
    """The project next to a copy of it, in which a file is another one: the same texts refer to different files."""
    q = Project()
    names = sorted(p.files)
    changed = set(rng.sample(names, 1)) if rng.random() < .8 else set()
    for n, text in p.files.items():
        q.files[n] = text
        q.files['zz/' + n] = text if n not in changed else text + '\nzz{changed:yes}'
    return q
