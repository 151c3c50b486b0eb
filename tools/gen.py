"""Random stylesheets in the CSS subset cssc supports.

A document is a list of *atoms*: strings, and layout slots that a rendering
fills in.  Rendering the same document twice gives two layouts of the same
stylesheet.  The generator only produces inputs; what they mean is decided by
the TLA+ specification.
"""
import random
import re

S = ('S',)      # whitespace required (descendant combinator, between words)
V = ('V',)      # separator between value tokens: whitespace and/or a comment
O = ('O',)      # optional whitespace and comments
C = ('C',)      # optional comment only (whitespace would change the meaning)
N = ('N',)      # where a line break is customary
U = ('U',)      # optional whitespace only

COMMENTS = ['/**/', '/* c */', '/* } */', '/* ; */', '/* "x */', "/* it's */", '/***/', '/* a\n b */',
            '/* @import "x"; */', '/*\n\n*/', '/* é中 */', '/*/*/', '/****/', '/** **/', '/*\\*/', '/*{*/', '/*\n*/', '/*)*/', '/*<!--*/', '/* */', '/*url(*/', '/*//*/']


class Layout:
    """How to fill the slots."""
    def __init__(self, rng, style='mixed', nl=None):
        self.rng = rng
        self.style = style
        self.nl = nl or '\n'

    def ws(self):
        r = self.rng
        k = r.random()
        if self.style == 'min':
            return ' '
        if k < .1:
            return ''.join(r.choice([' ', ' ', '\t', self.nl]) for _ in range(r.choice([2, 2, 3, 5])))
        if k < .5:
            return ' '
        if k < .7:
            return self.nl
        if k < .8:
            return '\t'
        if k < .9:
            return '  '
        return self.nl + '  '

    def comment(self):
        return self.rng.choice(COMMENTS).replace('\n', self.nl)

    def fill(self, slot):
        r = self.rng
        k = slot[0]
        if self.style == 'min':
            return {'S': ' ', 'V': ' '}.get(k, '')
        if self.style == 'pretty':
            return {'S': ' ', 'V': ' ', 'O': ' ' if r.random() < .5 else '', 'N': self.nl}.get(k, '')
        p = r.random()
        if k == 'S':
            if p < .8:
                return self.ws()
            if p < .9:
                return self.ws() + self.comment()
            return self.comment() + self.ws() + (self.comment() if p > .97 else '')
        if k == 'V':
            if p < .85:
                return self.ws()
            if p < .93:
                return self.comment()
            if p < .95:
                return self.comment() + self.comment()
            return self.ws() + self.comment() + self.ws()
        if k == 'U':
            return self.ws() if p < .3 else ''
        if k == 'O':
            if p < .5:
                return ''
            if p < .85:
                return self.ws()
            if p < .94:
                return self.comment()
            if p < .96:
                return self.comment() + self.ws() + self.comment()
            return self.ws() + self.comment() + self.ws()
        if k == 'C':
            return self.comment() if p < .06 else ''
        if k == 'N':
            if p < .6:
                return self.nl
            if p < .7:
                return self.ws() + self.comment() + self.ws()
            return ''
        raise AssertionError(slot)


def render(atoms, layout):
    return ''.join(a if isinstance(a, str) else layout.fill(a) for a in atoms)


def join(parts, sep):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += sep
        out += p
    return out


class Gen:
    def __init__(self, rng, **feat):
        self.r = rng
        self.f = dict(exotic=True, math=True, vars=False, anylink=False, ranges=True, custommedia=False,
                      imports=(), malformed=False, atrules=True, strings=True, defs=False, mdefs=False,
                      simpledefs=False, simplefb=False, late=(), conds=None, decoys=True, rawcheck=False, plusminus=True, mathy=False, emptyqueries=True, openescapes=False)
        self.f.update(feat)
        self.raws = []      # malformed declarations, in order
        self.minvar = 0     # definitions only refer to later names, so they are not cyclic
        self.minmedia = 0
        self.links = 0      # how many :any-link there are in the selector list

    # ---- helpers
    def p(self, x):
        return self.r.random() < x

    def pick(self, *xs):
        return self.r.choice(xs)

    IDENTS = ['a', 'b', 'div', 'span', 'foo', 'bar-baz', 'x1', '_u', '-v', 'Block', 'é', '中文', 'h1', 'n', 'e', 'i', 's']
    EXOTIC = ['\\66oo', 'a\\:b', '\\31 0', 'a\\.b', '--d', '-\\66 ', '\\000066 b', 'md\\:w-1\\/2', 'a\\{b', '\\e9 ', 'x\\20y', '\\26 B', '--']

    def escape(self, ch):
        """A character as an escape."""
        k = self.r.random()
        if k < .3 and ch not in '0123456789abcdefABCDEF\n\r\f':
            return '\\' + ch
        h = '%x' % ord(ch)
        if self.p(.3):
            h = h.upper()
        end = ' ' if self.p(.8) else self.pick('\t', '\n', '\r\n', '\f')
        if k < .6:
            return '\\' + h + end
        return '\\' + h.rjust(6, '0') + self.pick('', end)

    def spelled(self, name):
        """The same name, maybe with an escape."""
        if self.f['exotic'] and self.p(.06) and '\\' not in name:
            i = self.r.randrange(2, len(name))
            e = self.escape(name[i])
            if e[-1] not in ' \t\n\r\f' and len(e) > 2:
                e += ' '
            return name[:i] + e + name[i + 1:]
        return name

    def composed(self):
        """An identifier made up from pieces of every kind."""
        out = self.pick('', '', '', '-', '--', '_')
        first = True
        for _ in range(self.pick(1, 1, 2, 3)):
            k = self.r.random()
            if k < .5:
                out += self.pick('a', 'b', 'Z', 'q', 'é', '\U0001f600', '_', 'url', 'and', 'from', 'e3', 'n-1', 'important')
            elif k < .65 and not first and out not in ('-', '--'):
                out += self.pick('0', '42', '-', '--', '-n')
            else:
                out += self.escape(self.pick(*'az09 .:;{}()"\'\\/*!@#+-é,<'))
            first = False
        if re.search(r'\\[0-9a-fA-F]{6}$', out):
            out += ' '  # or it would take whitespace after the name
        return out

    def ident(self):
        if self.f['openescapes'] and self.p(.12):
            # what follows decides where the escape ends
            return self.r.choice(self.IDENTS) + self.pick('\\e9', '\\31', '\\00e9', '\\2E')
        if self.f['exotic'] and self.p(.12):
            return self.r.choice(self.EXOTIC)
        if self.f['exotic'] and self.p(.1):
            return self.composed()
        return self.r.choice(self.IDENTS)

    def string(self):
        if not self.f['strings']:
            return '"s"'
        pieces = ['', 'x', 'a b', 'a}b', ';', '/* no */', 'é', 'url(x)', '//', '\\"', "\\'", '\\\\', '\\A', '\\a b', 'it', '{', '\\26 B', '@import', 'a\\\nb', '<!--', '#', "~", '%',
                  '\\22', '\\27 z', '*/', '/*', '  ', '\t', '\\\r\n', '\\\n', '\\0', '\\g', '\U0001f600', '\\1F600 ', '\\00000a', ')', '\\}', '&', '0', 'F']
        body = ''.join(self.pick(*pieces) for _ in range(self.pick(1, 1, 1, 2, 3)))
        q = self.pick('"', "'")
        other = "'" if q == '"' else '"'
        if self.p(.2):
            body += other
        return q + body + q

    # ---- selectors
    def anb(self):
        r = self.r
        k = r.random()
        a = r.choice(['n', '-n', '2n', '-3n', '+4n', '1n', '0n', 'N', '+n', '10n', '-1n'])
        if self.p(.4):
            a = r.choice(['', '+', '-']) + self.digits(3) + r.choice(['n', 'n', 'N'])
        b = str(r.choice([0, 1, 2, 5, 10])) if self.p(.6) else self.digits(3)
        sign = r.choice(['+', '-'])
        if k < .1:
            return ['even']
        if k < .2:
            return ['odd']
        if k < .35:
            return [r.choice(['', '+', '-']) + b]
        if k < .5:
            return [a]
        form = r.random()
        if form < .5:
            return [a, sign, b] if sign == '+' or True else None
        if form < .75:
            return [a, S, sign, S, b]
        return [a, S, sign + b] if self.p(.5) else [a, sign, S, b]

    def attr(self):
        r = self.r
        out = ['[', O, self.ident()]
        k = r.random()
        if k < .25:
            return out + [O, ']']
        op = r.choice(['=', '~=', '|=', '^=', '$=', '*='])
        val = self.ident() if self.p(.4) else self.string()
        out += [O, op, O, val]
        if self.p(.2):
            out += [S, r.choice(['i', 's', 'I'] if self.f['exotic'] else ['i', 's'])]
        return out + [O, ']']

    def pseudo(self, depth):
        r = self.r
        k = r.random()
        if self.f['anylink'] and k < .5 and self.links < 4:
            self.links += 1
            return [':any-link' if self.p(.9) else ':Any-Link']
        if k < .35:
            return [':' + r.choice(['hover', 'focus', 'first-child', 'before', 'link', 'root', 'empty', '-moz-any-link', 'any-lin\u212a'])]
        if k < .5:
            return ['::' + r.choice(['before', 'after', 'placeholder', '-webkit-scrollbar'])]
        if k < .75 and depth < 2:
            n = 1 if self.p(.6) else 2
            return [':' + r.choice(['not', 'is', 'where', 'matches', '-moz-any']), '('] + [O] + \
                join([self.complex(depth + 1) for _ in range(n)], [O, ',', O]) + [O, ')']
        if k < .92:
            return [':' + r.choice(['nth-child', 'nth-last-child', 'nth-of-type', 'nth-last-of-type']), '(', O] + self.anb() + [O, ')']
        return [r.choice([':lang(en)', '::slotted(span)', '::part(foo)', ':dir(rtl)', ':host(.a)'])]

    def compound(self, depth):
        out = []
        if self.p(.6):
            if self.p(.05):
                out.append(self.pick('svg|', '*|', '|'))
            out.append(self.ident() if self.p(.9) else '*')
        n = self.pick(0, 0, 1, 1, 2) if out else self.pick(1, 1, 2)
        pseudo = False
        for _ in range(n):
            k = self.r.random()
            if out:
                out.append(C)
            if pseudo:
                k = 1 - .6 * (1 - k) if self.p(.5) else k
            if k < .4:
                out.append('.' + self.ident())
            elif k < .5:
                out.append('#' + self.ident())
            elif k < .65:
                out += self.attr()
            else:
                out += self.pseudo(depth)
                pseudo = True
        if self.f['anylink'] and self.p(.3) and self.links < 4:
            self.links += 1
            out += [':any-link']
        return out

    def complex(self, depth=0):
        out = self.compound(depth)
        for _ in range(self.pick(0, 0, 0, 1, 1, 2)):
            k = self.r.random()
            if k < .4:
                out += [S]
            else:
                out += [S if str(out[-1]).endswith('--') else O, self.pick('>', '+', '~'), O]
            out += self.compound(depth)
        return out

    def selectors(self):
        n = self.pick(1, 1, 1, 2, 3)
        self.links = 0
        return join([self.complex() for _ in range(n)], [O, ',', O])

    # ---- values
    UNITS = ['px', 'em', 'rem', 'vh', 's', 'deg', 'fr', 'PX', 'x']

    def digits(self, most):
        return ''.join(self.pick(*'0123456789') for _ in range(self.r.randint(1, most)))

    def number(self):
        if self.p(.2):
            n = self.pick('', '', '', '-', '+')
            k = self.r.random()
            if k < .4:
                return n + self.digits(4)
            return n + (self.digits(3) if k < .8 else '') + '.' + self.digits(5)
        n = self.pick('0', '1', '2', '10', '.5', '1.5', '100', '-1', '+2', '-.5', '0.25', '12.50')
        if self.f['exotic'] and self.p(.08):
            n = self.pick('1e3', '1E-3', '2e+2', '.5e1', '007')
        return n

    def numeric(self):
        k = self.r.random()
        n = self.number()
        if k < .25:
            return n
        if k < .4:
            return n + '%'
        if self.p(.08):
            return n + self.pick('e', 'ex', 'E-x', 'n', '_', 'é', '\\65 m', '-x', '--', 'Q', 'mm', 'pt', 'e-', 'ms', 'kHz', 'turn', 'dppx')
        return n + self.r.choice(self.UNITS)

    def url(self):
        k = self.r.random()
        if k < .5:
            return [self.pick('url(', 'url(', 'Url('), U, ''.join(self.pick('a', 'b.png', '/', '#', '?q', '\\ ', '\\)', '\\(', '\\"', "\\'", '\\\\', '\\26 ', 'é', '%20', '/*', '*/', ';', '{', '}', ',', '!', '@', '[', ':', '&') for _ in range(self.pick(0, 1, 2, 4))), U, ')'] \
                if self.p(.3) else 'url(' + self.pick('', ' ') + self.pick('a.png', '/x/y.svg#z', 'data:image/png;base64,AA==', 'x\\)y', 'http://h/p?q=1&r', 'é.png', '//h/*x*/') + self.pick('', ' ') + ')'
        return [self.pick('url(', 'url(', 'URL(', 'u\\72l('), U, self.string(), U, ')']

    def mathterm(self, depth):
        k = self.r.random()
        if depth < 2 and k < .2:
            return ['(', O] + self.mathsum(depth + 1) + [O, ')']
        if self.f['vars'] and k < .4:
            return self.var(depth + 1, single=True)
        if depth < 2 and k < .27:
            return ['calc('] + self.mathsum(depth + 1) + [')']
        if depth < 2 and k < .3:
            # not numbers that are known
            return [self.pick('calc(', 'min(', 'max('), O] + join([self.numterm(), self.numterm()], [O, ',', O]) + [O, ')']
        return self.numterm()

    def numterm(self):
        if self.p(.15):
            # large, small and long numbers
            return [self.pick('70000px', '65536', '4294967296', '123456789.125px', '1e3', '2E-4px', '-1.5e+6em', '99999', '.0000125', '-2147483648px',
                              self.digits(9), self.digits(9) + 'px', self.digits(6) + '.' + self.digits(6) + '%')]
        return [self.pick('1px', '2px', '3em', '10%', '2', '.5', '100vw', '-1px', '0', '4px')]

    def mathsum(self, depth):
        out = self.mathterm(depth)
        for _ in range(self.pick(0, 1, 1, 2)):
            if self.f['plusminus'] and self.p(.5):
                out += [S, self.pick('+', '-'), S]
            else:
                out += [O, self.pick('*', '/'), O]
            out += self.mathterm(depth)
        return out

    def math(self):
        k = self.r.random()
        if k < .6:
            return [self.pick('calc('), O] + self.mathsum(0) + [O, ')']
        return [self.pick('min(', 'max(', 'clamp('), O] + join([self.mathsum(1) for _ in range(self.pick(2, 3))], [O, ',', O]) + [O, ')']

    VARS = ['--a', '--A', '--b', '--c', '--d', '--a-1', '--é', '--B', '--\\e9 x', '--a_', '--0', '--last']

    def var(self, depth=0, single=False):
        name = self.spelled(self.r.choice(self.VARS[self.minvar:]))
        out = [self.pick('var(', 'var(', 'var(', 'VAR(') if self.f['exotic'] else 'var(', O, name, O]
        if self.p(.4):
            out += [',', O] + ((self.numterm() if self.f['simplefb'] else self.valueterm(depth + 1)) if single else self.value(depth + 1)) + [O]
        return out + [')']

    def func(self, depth):
        k = self.r.random()
        if k < .25:
            return ['rgba('] + join([[self.pick('0', '255', '.5', '10%')] for _ in range(4)], [O, ',', O]) + [')']
        if k < .4:
            return ['rgb(', O] + join([[self.pick('0', '255')] for _ in range(3)], [V]) + [S, '/', S, '50%', O, ')']
        if k < .5:
            return ['cubic-bezier(.4,0,.2,1)']
        name = self.pick('translate', 'linear-gradient', 'attr', 'minmax', 'repeat', '-webkit-image-set', 'Foo')
        n = self.pick(1, 1, 2, 3)
        return [name + '(', O] + join([self.valuelist(depth + 1) for _ in range(n)], [O, ',', O]) + [O, ')']

    def valueterm(self, depth):
        k = self.r.random()
        if self.f['simplefb'] and depth and k < .8:
            return self.numterm()
        if self.f['mathy'] and self.p(.4) and depth < 2:
            return self.math()
        if self.f['vars'] and k < .3:
            return self.var(depth)
        if k < .45:
            return [self.numeric()]
        if k < .65:
            return [self.pick('auto', 'red', 'inherit', 'Arial', 'inline-block', '-webkit-box', 'é', 'none', 'to')]
        if k < .72:
            return [self.string()]
        if k < .78:
            return ['#' + self.pick('fff', '0a0B0c', 'abcdef80', '123')]
        if k < .83:
            u = self.url()
            return u if isinstance(u, list) else [u]
        if k < .88 and self.f['math'] and depth < 2:
            return self.math()
        if k < .97 and depth < 2:
            return self.func(depth)
        if k < .985 and depth == 0:
            return ['[', O] + join([[self.pick('full', 'main', 'a')] for _ in range(self.pick(1, 2))], [V]) + [O, ']']
        return [self.numeric()]

    def valuelist(self, depth):
        out = self.valueterm(depth)
        for _ in range(self.pick(0, 0, 0, 1, 1, 2)):
            out += [V] + self.valueterm(depth)
        return out

    def value(self, depth=0):
        out = self.valuelist(depth)
        for _ in range(self.pick(0, 0, 0, 0, 1, 2)):
            out += [O, ',', O] + self.valuelist(depth)
        if depth == 0 and self.p(.06):
            out += [O, '/', O] + self.valueterm(depth)
        return out

    PROPS = ['color', 'margin', 'width', 'font', 'font-family', '-webkit-transition', 'background', 'content',
             'transform', 'grid-area', 'zoom', 'filter', 'WIDTH']

    def prop(self):
        k = self.r.random()
        if k < .04:
            return '*zoom'
        if k < .1:
            return self.pick('--local', '--x-y')
        return self.r.choice(self.PROPS)

    MALFORMED = [
        ['filter', ':', 'progid:DXImageTransform.Microsoft.gradient(startColorstr="#1", endColorstr="#2")'],
        ['color', ':', 'rgb(0;0)'],
        ['color', ':', 'a', ' = ', 'b'],
        ['foo bar'],
        ['color red'],
        ['color', ':'],
        ['color'],
        ['x', ':', '(1 + 2)'],
        ['width', ':', '1px !ie'],
        ['a', ':', 'b:c'],
        ['--x', ':', '{a:b;c:d}'],
        ['$w', ':', '1px'],
        ['.5', ':', '1px'],
        ['color', ':', '@foo'],
        ['width', ':', 'expression(a;b)'],
        ['grid', ':', '[a;b]'],
        [':', 'x'],
        ['font', ':', '"a" "b" ( , ) "}"'],
        ['_zoom', ' 1'],
        ['a', ':', '"x;y" ='],
        ['a', ':', 'x !y\\ '],
        ['a', ':', '= \\;'],
        ['a', ':', '& \\}'],
        ['a', ':', 'b !\\20 '],
        ['a b', ' \\: c'],
        ['a', ':', '[(;)]', ' {x;y}'],
        ['color', ':', 'fn(a ! b)'],
        ['color', ':', 'fn(a: b)'],
        ['background', ':', 'url(x) : y'],
        ['width', ':', 'calc()'],
        ['width', ':', 'calc(1px +)'],
        ['width', ':', 'calc(* 2)'],
        ['width', ':', 'calc(1px,)'],
        ['&:hover', ' x'],
        ['unicode-range', ':', 'U+26, U+0-7F, U+4??'],
        ['UNICODE-RANGE', ':', 'u+0025-00FF'],
        ['--é', ':', '{}'],
        ['color', ':', 'red', ' !important', ' !important'],
        ['color', ':', '!important red'],
        ['color', ':', '(a;b)'],
        ['y', ':', '= (;a:b) c'],
        ['a', ':', '(x}) = (;) [(}) ;]'],
        ['a', ':', 'f((;}) ;) !x'],
    ]

    def malformed(self):
        m = list(self.r.choice(self.MALFORMED))
        self.raws.append(''.join(m))
        return m

    def decl(self):
        out = [self.prop(), O, ':', O] + self.value()
        if self.p(.1):
            out += [O, self.pick('!important', '!IMPORTANT', '! important', '!Important')]
        return out

    def block(self, decls=None):
        if decls is None:
            n = self.pick(0, 1, 1, 2, 3) if self.p(.5) else self.pick(1, 2)
            decls = []
            for _ in range(n):
                if self.f['malformed'] and self.p(.4):
                    decls.append(self.malformed())
                else:
                    decls.append(self.decl())
        elif self.f['malformed'] and self.p(.4):
            decls = list(decls)
            decls.insert(self.r.randrange(len(decls) + 1), self.malformed())
        out = ['{', O]
        if self.p(.05):
            out += [';', O]
        for i, d in enumerate(decls):
            out += d
            last = i == len(decls) - 1
            if not last or self.p(.4):
                out += [O if not self.f['malformed'] else '', ';']
                if self.p(.05):
                    out += [O, ';']
            out += [O]
        return out + ['}']

    def rule(self):
        if self.p(.04):
            return [':root', O] + self.block()
        return self.selectors() + [O] + self.block()

    # ---- media queries
    def feature(self):
        k = self.r.random()
        if self.f['custommedia'] and k < .35:
            return ['(', O, self.spelled(self.r.choice(self.MEDIA[self.minmedia:])), O, ')']
        if self.f['ranges'] and k < .6:
            return self.rangefeature()
        if k < .7:
            return ['(', O, self.pick('color', 'hover', 'grid', 'monochrome'), O, ')']
        return ['(', O, self.pick('min-width', 'max-width', 'width', 'orientation', 'min-resolution', '-webkit-min-device-pixel-ratio'), O, ':', O,
                self.pick('600px', '40em', 'landscape', '2dppx', '1.5', '0'), O, ')']

    def rangefeature(self):
        prop = self.pick('width', 'height', 'resolution', 'device-width')
        num = lambda: self.pick('', '', '-', '+') + self.pick('', self.digits(3)) + '.' + self.digits(5) + self.pick('px', 'em', 'REM', '', 'dppx') if self.p(.25) else self.pick('600px', '40.5em', '0px', '.5px', '100px', '1200PX', '2dppx', '-1px', '+3px', '1.25rem', '5', '99.999px', '0.001px', '0', '-0', '+0em', '1e3px', '2E-4em', '4294967296px', '2147483647', '123456789.125px', '-.0009px')
        op = lambda: self.pick('<', '<=', '>', '>=')
        k = self.r.random()
        if k < .4:
            return ['(', O, prop, O, op(), O, num(), O, ')']
        if k < .7:
            return ['(', O, num(), O, op(), O, prop, O, ')']
        o = op()
        return ['(', O, num(), O, o, O, prop, O, o, O, num(), O, ')']

    def mediaquery(self):
        k = self.r.random()
        if self.f['custommedia'] and .2 <= k < .4:
            k = .5
        if k < .2:
            return [self.pick('screen', 'print', 'all', 'speech')]
        if k < .3:
            return [self.pick('not', 'only'), S, 'screen'] + ([S, 'and', S] + self.feature() if self.p(.5) else [])
        if k < .4:
            return ['not', S] + self.feature()
        out = [self.pick('screen', 'print')] if self.p(.4) else self.feature()
        word = 'and' if len(out) == 1 or self.p(.7) or self.f['custommedia'] else 'or'
        for _ in range(self.pick(0, 0, 1, 1, 2)):
            out += [S, word, S] + self.feature()
        return out

    def cased(self, s):
        k = self.r.random()
        if k < .05:
            return s.upper()
        return ''.join(c.upper() if self.p(.3) else c for c in s) if k < .1 else s

    def mediaqueries(self):
        if self.f['emptyqueries'] and self.p(.1):
            qs = [self.mediaquery() if self.p(.4) else [] for _ in range(self.pick(2, 2, 3))]
            return join(qs, [O, ',', O])
        return join([self.mediaquery() for _ in range(self.pick(1, 1, 1, 2))], [O, ',', O])

    def rules(self, n):
        return join([self.rule() for _ in range(n)], [N])

    def media(self):
        return [self.cased('@media'), S] + self.mediaqueries() + [O, '{', O] + self.rules(self.pick(0, 1, 1, 2)) + [O, '}']

    def keyframes(self):
        out = [self.cased(self.pick('@keyframes', '@-webkit-keyframes', '@-o-keyframes', '@-moz-keyframes')), S]
        out += [self.ident() if self.p(.8) else self.string(), O, '{', O]
        for _ in range(self.pick(1, 2, 3)):
            sel = join([[self.pick('from', 'to', '0%', '50%', '33.3%', '100%')] for _ in range(self.pick(1, 1, 2))], [O, ',', O])
            out += sel + [O] + self.block() + [O]
        return out + ['}']

    def fontface(self):
        ds = [['font-family', O, ':', O, self.string()],
              ['src', O, ':', O, 'url(', '"a.woff"', ')', V, 'format("woff")', O, ',', O, 'local("x")']]
        if self.p(.3):
            ds.append(['unicode-range', O, ':', ' U+26'])
        return [self.cased('@font-face'), O] + self.block(ds)

    def otherat(self):
        k = self.r.random()
        if k < .2:
            return ['@supports', S, '(', O, 'display', O, ':', O, 'grid', O, ')', self.pick('', ' and (not (x:y))'), O, '{', O] + self.rules(self.pick(1, 2)) + [O, '}']
        if k < .3:
            return ['@page', S, self.pick(':first', 'toc', 'LandscapeTable:left'), O] + self.block([['margin', O, ':', O, '1cm']])
        if k < .4:
            return ['@page', O] + self.block([['margin', O, ':', O, '1cm']])
        if k < .5:
            return ['@namespace', S, 'svg', S, 'url(http://www.w3.org/2000/svg)', O, ';']
        if k < .55:
            return ['@layer', S, 'base', O, ',', O, 'theme', O, ';']
        if k < .58:
            return [self.pick('@\u212aeyframes', '@-webkit-\u212aeyframes', '@med\u0130a'), S, 'x', O] + self.block([['margin', O, ':', O, '1cm']])
        if k < .6:
            return [self.pick('@\u0130mport', '@cu\u017ftom-media'), S, '"x"', O, ';']
        if k < .7:
            return ['@layer', S, 'base', O, '{', O] + self.rules(1) + [O, '}']
        if k < .74:
            return self.pick(['@starting-style'], ['@scope', S, '(.a)', S, 'to', S, '(.b)'], ['@document', S, 'url(x)'], ['@Container', S, '(width > 1px)'], ['@scope']) + \
                [O, '{', O] + self.rules(1) + [O, '}']
        if k < .78:
            return ['@container', S, 'card', S, '(min-width: 400px)', O, '{', O] + self.rules(1) + [O, '}']
        if k < .86:
            return ['@font-feature-values', S, 'Font One', O, '{', '@styleset', '{', 'nice-style:12', '}', '}']
        if k < .93:
            return ['@-moz-document', S, 'url-prefix()', O, '{', O] + self.rules(1) + [O, '}']
        return ['@property', S, '--p', O, '{', O, 'syntax', ':', '"<length>"', ';', 'inherits', ':', 'false', O, '}']

    MEDIA = ['--m', '--M', '--n', '--o', '--m-1', '--undef']

    # ---- definitions
    def definition(self):
        i = self.r.randrange(len(self.VARS) - 1)     # the last name is never defined
        self.minvar = i + 1
        if self.f['simpledefs']:
            k = self.r.random()
            v = self.numterm() if k < .6 else ['calc('] + self.mathsum(1) + [')'] if k < .7 else self.var(1, single=True)
        else:
            v = join([self.valuelist(1) for _ in range(self.pick(1, 1, 1, 1, 2))], [O, ',', O])
        self.minvar = 0
        return [self.spelled(self.VARS[i]), O, ':', O] + v

    def root(self):
        ds = [self.definition() for _ in range(self.pick(1, 1, 2, 3))]
        if self.p(.3):
            ds.insert(self.r.randrange(len(ds) + 1), self.decl())
        k = self.r.random()
        if k < .75 or not self.f['decoys']:
            sel = [':root']
        elif k < .8:
            sel = [self.pick(':ROOT', ':Root')]
        else:
            sel = list(self.pick([':root', O, ',', O, '.b'], ['html:root'], [':root.x'], ['.x'], [':root', S, 'a'], ['::root'], ['root'], ['.root'], [':root', ':hover'], [':not(', ':root', ')'], ['a', O, '>', O, ':root']))
        out = sel + [O] + self.block(ds)
        if self.f['decoys'] and self.p(.12):
            out = ['@media', S, self.pick('print', 'screen'), O, '{', O] + out + [O, '}']
        return out

    def custommedia(self):
        i = self.r.randrange(len(self.MEDIA) - 1)
        self.minmedia = i + 1
        q = self.mediaquery()
        self.minmedia = 0
        return [self.cased('@custom-media'), S, self.spelled(self.MEDIA[i]), S] + q + [O, ';']

    def imports(self):
        out = []
        for spec in self.f['imports']:
            out += self.importrule(spec, self.f['conds'])
        return out

    def quoted(self, s):
        q = self.pick('"', "'")
        return q + self.escaped(s, q + '\\') + q

    def escaped(self, s, special):
        out = ''
        for ch in s:
            if ch in special:
                out += '\\' + ch
            elif self.f['exotic'] and self.p(.02) and ch != '\n':
                e = self.escape(ch)
                out += e + ' ' if len(e) > 6 and e[-1] not in ' \t\n\r\f' else e
            else:
                out += ch
        if self.f['exotic'] and s and s[-1] not in special and self.p(.03):
            # an escape that ends where the text ends
            out = out[:-1] + '\\%x' % ord(s[-1]) if out.endswith(s[-1]) and not out.endswith('\\' + s[-1]) else out
        return out

    def importrule(self, spec, cond=None):
        k = self.r.random()
        if k < .5:
            t = [self.quoted(spec)]
        elif k < .75:
            t = [self.pick('url(', 'url(', 'URL(') + self.pick('', ' ') + self.escaped(spec, ' "\'()\\') + self.pick('', ' ') + ')']
        else:
            t = ['url(', self.quoted(spec), ')']
        out = [self.cased('@import'), S] + t
        if cond is None:
            cond = self.p(.2)
        if cond:
            out += [S] + self.mediaqueries()
        return out + [O, ';', N]

    def stylesheet(self, n=None):
        out = []
        if self.p(.1):
            out += [O]
        if self.f['atrules'] and self.p(.08):
            out += ['@charset "utf-8";', N]
        out += self.imports()
        late = list(self.f['late'])
        for _ in range(n if n is not None else self.pick(1, 2, 3, 4)):
            k = self.r.random()
            if late and self.p(.5):
                out += self.importrule(late.pop(), self.f['conds'])
            if self.f['defs'] and self.p(.4):
                out += self.root()
            elif self.f['mdefs'] and self.p(.4):
                out += self.custommedia()
            elif k < .6 - .2 * bool(self.f['custommedia']):
                out += self.rule()
            elif k < .75:
                out += self.media()
            elif k < .83:
                out += self.keyframes()
            elif k < .9:
                out += self.fontface()
            elif self.f['atrules']:
                out += self.otherat()
            else:
                out += self.rule()
            out += [N]
            if self.p(.03):
                out += [self.pick('<!--', '-->'), N]
        for spec in late:
            out += self.importrule(spec, self.f['conds']) + self.rule()
        return out
