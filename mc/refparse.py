"""Reference parser: the grammar published in the docstrings of the parser, as a recursive descent over positions.

Independent of the code under test.  parse(text, python=False, skip=0) returns a tree of tuples:

 ('text', [node...])          ('plain', s) ('rem', s) ('str', s) ('int', n) ('float', x)
 ('set', lval, form)          ('let', lval, form, form)     lval: name or [names]
 ('macro', name, [pars], s)   ('comment',)   ('import', kind, name)
 ('apply', fn, [args], [(name, form)...])    args may be ('embed', form)
 ('eval', apply)  ('emit', var, form|None)   ('infix', text)  ('list', [forms])
 ('lambda', [(late[], name, default|None)...] | var, form)    ('cond', c, a, b|None)
 ('var', [regions] | '&', name)

and raises Reject where the grammar does not derive the source.
"""
import re

SPACE = ' \t'
EOL = '\n\r'
GAP = SPACE + EOL
LETTER = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
FIGURE = set('0123456789-')


class Reject(Exception):
    def __init__(self, why, pos):
        Exception.__init__(self, '%s at %d' % (why, pos))
        self.pos = pos


def is_any(ch):
    """A character a source may contain."""
    return ch in '\n\r\t' or 0x20 <= ord(ch) <= 0xFF


class Plain(object):
    """A growing run of plain text with bracket depths."""


RE_STR = re.compile(r'"(?:\\.|[^\\"])*"')
RE_CHR = re.compile(r"'(?:\\.|[^\\'])*'")
RE_FLOAT = re.compile(r'([+-]? *)(\d+\.\d+(?:[eE][+-]?\d+)?)')
RE_INT = re.compile(r'([+-]?)[ \t]*(0[xX][0-9a-fA-F]+[lL]?|0[bB][01]+|0[oO][0-7]+|0[0-7]*|[1-9][0-9]*)[lL]?')
RE_CODING = re.compile(r'coding[:=][ \t]*yupp(\.[-_a-zA-Z0-9]+)?(?:\W|$)', re.I)


class Parser(object):
    def __init__(self, s, python=False, skip=0, importer=None):
        self.s, self.n = s, len(s)
        self.py, self.skip = python, skip
        self.importer = importer

    # -- lexical
    def at(self, i, t):
        return self.s.startswith(t, i)

    def run(self, i, chars):
        while i < self.n and self.s[i] in chars:
            i += 1
        return i

    def gap(self, i):
        return self.run(i, GAP)

    def atom(self, i):
        """(name|None, i)"""
        if i < self.n and self.s[i] in LETTER:
            j = i + 1
            while j < self.n and (self.s[j] in LETTER or self.s[j] in FIGURE):
                j += 1
            return self.s[i:j], j
        return None, i

    def expect(self, i, t):
        if not self.at(i, t):
            raise Reject('%r expected' % t, i)
        return i + len(t)

    # -- source
    def source(self):
        if not self.s:
            return ('text', [])
        i, head = 0, []
        if self.py:
            i, head = self.header()
        node, i = self.text(i, lambda j, d: j >= self.n)
        if head and node[1]:
            node[1][0:0] = head
        return node

    def header(self):
        """Python magic comment on the first or second line: 'yupp.' is removed from it, or all of it."""
        i = self.run(0, SPACE)
        left = 2
        if i < self.n and self.s[i] in EOL:
            i += 1
            left = 1
        head = []
        while left:
            i = self.run(i, SPACE)
            if not self.at(i, '#'):
                break
            j = i
            while j < self.n and self.s[j] not in EOL:
                j += 1
            ln = self.s[i:j]
            m = RE_CODING.search(ln)
            if m:
                if m.group(1) is None:
                    return j, head
                k = m.start(1) - 4          # the word before the dot, in whatever letters
                return j, head + [('rem', ln[:k]), ('rem', ln[k + 5:])]
            head.append(('rem', ln))
            i = j
            if i < self.n and self.s[i] in EOL:
                head.append(('rem', self.s[i]))
                i += 1
            left -= 1
        return 0, []

    # -- text: constructs and plain characters until stop(position, depths) at a yield point
    def text(self, i, stop):
        nodes = []
        sq = pth = 0
        run = None          # start of the current plain run
        while True:
            node, j = self.construct(i)
            if node is not None:
                if run is not None:
                    nodes.append(('plain', self.s[run:i]))
                    run = None
                if node[0] == 'import':
                    nodes.extend(self.importer(node) if self.importer else [node])
                else:
                    nodes.append(node)
                i = j
                continue
            # -- YIELD
            r = stop(i, (sq, pth))
            if r:
                if run is not None:
                    nodes.append(('plain', self.s[run:i]))
                return ('text', nodes), (i if r is True else r)
            # -- one character of plain text
            if i >= self.n:
                raise Reject('unexpected end', i)
            c = self.s[i]
            if not is_any(c):
                raise Reject('forbidden character', i)
            if run is None:
                run = i
            if c == '[':
                sq += 1
            elif c == ']':
                sq = max(0, sq - 1)
            elif c == '(':
                pth += 1
            elif c == ')':
                pth = max(0, pth - 1)
            i += 1

    def construct(self, i):
        if self.at(i, '($'):
            if self.at(i, '($set'):
                return self.set(i)
            if self.at(i, '($let'):
                return self.let(i)
            if self.at(i, '($import'):
                return self.imp(i)
            if self.at(i, '($macro'):
                return self.macro(i)
            if self.at(i, '($!'):
                _, j = self.raw(i + 3)
                return ('comment',), j
            if not self.at(i, '($quote'):
                return self.application(i)
        q, j = self.quote(i)
        if q is not None:
            return q, j
        if self.skip == 1:
            return self.remark_c(i)
        if self.skip == 2:
            return self.remark_py(i)
        return None, i

    def raw(self, i):
        """plain ')' & [eq depth_pth 0]: (text, position after the parenthesis)"""
        if self.at(i, ')'):
            return '', i + 1
        start, pth = i, 0
        while True:
            if i >= self.n:
                raise Reject('unexpected end', i)
            c = self.s[i]
            if not is_any(c):
                raise Reject('forbidden character', i)
            if c == '(':
                pth += 1
            elif c == ')':
                pth = max(0, pth - 1)
            i += 1
            if pth == 0 and self.at(i, ')'):
                return self.s[start:i], i + 1

    def eol_at(self, i):
        while i < self.n and self.s[i] not in EOL:
            i += 1
        return i

    def remark_c(self, i):
        if self.at(i, '//'):
            j = self.eol_at(i + 2)
            return ('rem', self.s[i:j]), j
        if self.at(i, '/*'):
            j = self.s.find('*/', i + 2)
            if j < 0:
                raise Reject('unclosed comment', i)
            return ('rem', self.s[i:j + 2]), j + 2
        return None, i

    def remark_py(self, i):
        if self.at(i, '#'):
            j = self.eol_at(i + 1)
            return ('rem', self.s[i:j]), j
        return None, i

    # -- constructs
    def tag(self, i, t):
        i = self.gap(i)
        if self.at(i, t):
            i = self.gap(i + len(t))
        return self.expect(i, ')')

    def binding(self, i):
        if self.at(i, '('):
            i = self.gap(i + 1)
            lval = []
            while True:
                a, i = self.name(i)
                lval.append(a)
                i = self.gap(i)
                if self.at(i, ')'):
                    i += 1
                    break
        else:
            lval, i = self.name(i)
        i = self.gap(i)
        form, i = self.must(self.form, i)
        return lval, form, i

    def name(self, i):
        a, j = self.atom(i)
        if a is None:
            raise Reject('name expected', i)
        return a, j

    def must(self, fn, i):
        leg, j = fn(i)
        if leg is None:
            raise Reject('form expected', i)
        return leg, j

    def set(self, i):
        lval, form, i = self.binding(self.gap(i + 5))
        return ('set', lval, form), self.tag(i, '\\set')

    def let(self, i):
        if not self.at(i, '($let'):
            return None, i
        lval, val, i = self.binding(self.gap(i + 5))
        form, i = self.must(self.form, self.gap(i))
        return ('let', lval, val, form), self.tag(i, '\\let')

    def imp(self, i):
        i = self.gap(i + 8)
        a, j = self.atom(i)
        if a is not None:
            node = ('import', 'atom', a)
        else:
            q, j = self.quote(i)
            if q is not None:
                node = ('import', 'quote', q[1])
            else:
                f, j = self.infix(i)
                if f is None:
                    raise Reject('name of imported file expected', i)
                node = ('import', 'infix', f)
        return node, self.tag(j, '\\import')

    def macro(self, i):
        i = self.gap(i + 7)
        name, i = self.name(i)
        i = self.gap(self.expect(self.gap(i), '('))
        pars = []
        while not self.at(i, ')'):
            a, i = self.name(i)
            pars.append(a)
            i = self.gap(i)
        body, i = self.raw(i + 1)
        return ('macro', name, pars, body), i

    def emit(self, i):
        i = self.gap(i + 6)
        var, i = self.must(self.variable, i)
        form, i = self.form(self.gap(i))
        return ('emit', var, form), self.tag(i, '\\emit')

    def application(self, i):
        if not self.at(i, '($') or self.at(i, '($quote'):
            return None, i
        if self.at(i, '($code'):
            return self.code(i)
        if self.at(i, '($emit'):
            return self.emit(i)
        if self.at(i, '(${}'):
            return self.infix(i)
        i += 2
        ev = self.at(i, '$')
        if ev:
            i += 1
        fn, i = self.must(self.form, self.gap(i))
        fname = fn[2] if fn[0] == 'var' else None
        args, named = [], []
        while True:
            i = self.gap(i)
            name = None
            if self.at(i, '\\'):
                name, j = self.atom(i + 1)
                if name is not None:
                    j = self.gap(j)
                    if self.at(j, '.'):
                        name = None         # a lambda
            if name is not None:
                i = j
                if name == fname:
                    break                   # closing tag
                form, i = self.must(self.form, self.gap(i))
                named.append((name, form))
                continue
            embed = self.at(i, '*')
            j = self.gap(i + 1) if embed else i
            form, k = self.form(j)
            if form is None:
                if embed:
                    raise Reject('unexpected *', j)
                i = k
                break
            args.append(('embed', form) if embed else form)
            i = k
        i = self.expect(self.gap(i), ')')
        node = ('apply', fn, args, named)
        return (('eval', node) if ev else node), i

    # -- forms
    def form(self, i):
        leg, i = self.former(i)
        if leg is None:
            return None, i
        i = self.gap(i)
        if self.at(i, '?'):
            cond, i = self.must(self.former, self.gap(i + 1))
            i = self.gap(i)
            other = None
            if self.at(i, '|'):
                other, i = self.must(self.form, self.gap(i + 1))
            return ('cond', cond, leg, other), i
        return leg, i

    def former(self, i):
        for fn in (self.quote, self.number, self.variable, self.lam, self.l_form):
            leg, j = fn(i)
            if leg is not None:
                return leg, j
        return None, i

    def l_form(self, i):
        for fn in (self.code, self.infix, self.let, self.application, self.list):
            leg, j = fn(i)
            if leg is not None:
                return leg, j
        return None, i

    def variable(self, i):
        if self.at(i, '&'):
            a, j = self.name(i + 1)
            return ('var', '&', a), j
        a, i = self.atom(i)
        if a is None:
            return None, i
        reg = []
        while self.at(i, '::'):
            reg.append(a)
            a, i = self.name(i + 2)
        return ('var', reg, a), i

    def lam(self, i):
        if not self.at(i, '\\'):
            return None, i
        if self.at(i + 1, '('):
            bound, i = self.must(self.variable, self.gap(i + 2))
            i = self.gap(self.expect(self.gap(i), ').'))
        else:
            bound, late = [], []
            while self.at(i, '\\'):
                if self.at(i + 1, '...'):
                    if late:
                        raise Reject('late bound with refuge', i)
                    bound.append(([], '...', None))
                    i = self.gap(i + 4)
                    continue
                a, i = self.name(i + 1)
                default = None
                if self.at(i, ':'):
                    default, i = self.must(self.form, i + 1)
                self.expect(i, '.')
                if self.at(i, '..'):
                    late.append(a)
                    i = self.gap(i + 2)
                    continue
                bound.append((late, a, default))
                late = []
                i = self.gap(i + 1)
        leg, i = self.must(self.l_form, i)
        return ('lambda', bound, leg), i

    def bracket(self, i):
        """Length of '[' or '\\[' at i."""
        return 1 if self.at(i, '[') else 2 if self.at(i, '\\[') else 0

    def code(self, i):
        if self.at(i, ']'):
            j = self.run(i + 1, SPACE)
            if j < self.n and self.s[j] in EOL:
                def stop(k, d):
                    # -- EOL { '\\' } '['; an empty code may lack the EOL, but that does not end it
                    if k < self.n and self.s[k] in EOL:
                        m = self.run(k + 1, SPACE)
                        b = self.bracket(m)
                        if b:
                            return m + b
                    return False
                return self.text(j + 1, stop)

            def stop(k, d):
                # -- { '\\' } '[' >> { tag } ')' <<
                b = self.bracket(k)
                if b:
                    m = self.gap(k + b)
                    if self.at(m, '\\'):
                        a, m = self.atom(m + 1)
                        if a is None:
                            return False
                    if self.at(self.gap(m), ')'):
                        return k + b
                return False
            return self.text(i + 1, stop)
        if self.at(i, '['):
            return self.text(i + 1, lambda k, d: k + 1 if d[0] == 0 and self.at(k, ']') else False)
        if self.at(i, '($code'):
            return self.text(i + 6, lambda k, d: k + 1 if d[1] == 0 and self.at(k, ')') else False)
        if self.at(i, ',,'):
            def stop(k, d):
                if self.at(k, ';;'):
                    return k + 2
                if self.at(k, ',,'):
                    return True
                m = k
                if self.at(k, '\\'):
                    a, m = self.atom(k + 1)
                    if a is None:
                        return False
                    m = self.gap(m)
                return d[1] == 0 and self.at(m, ')')
            return self.text(i + 2, stop)
        return None, i

    def list(self, i):
        if not self.at(i, '('):
            return None, i
        i = self.gap(i + 1)
        out = []
        while not self.at(i, ')'):
            embed = self.at(i, '*')
            if embed:
                i = self.gap(i + 1)
            leg, i = self.must(self.form, i)
            out.append(('embed', leg) if embed else leg)
            i = self.gap(i)
        return ('list', out), i + 1

    def infix(self, i):
        if self.at(i, '{'):
            t, j = self.text(i + 1, lambda k, d: k + 1 if self.at(k, '}') else False)
            return ('infix', t), j
        if self.at(i, '(${}'):
            t, j = self.text(i + 4, lambda k, d: k + 1 if d[1] == 0 and self.at(k, ')') else False)
            return ('infix', t), j
        return None, i

    def number(self, i):
        m = RE_FLOAT.match(self.s, i)
        if m:
            return ('float', float(m.group(1).replace(' ', '') + m.group(2))), m.end()
        m = RE_INT.match(self.s, i)
        if m:
            d = m.group(2).lower().rstrip('l')
            if d[:2] == '0x':
                v = int(d[2:], 16)
            elif d[:2] == '0b':
                v = int(d[2:], 2)
            elif d[:2] == '0o':
                v = int(d[2:], 8)
            elif d[0] == '0' and len(d) > 1:
                v = int(d[1:], 8)
            else:
                v = int(d)
            return ('int', -v if m.group(1) == '-' else v), m.end()
        return None, i

    def quote(self, i):
        if self.py:
            q = self.string_py(i)
            if q:
                return ('str', self.s[i:q]), q
        else:
            for rx in (RE_STR, RE_CHR):
                m = rx.match(self.s, i)
                if m:
                    return ('str', m.group(0)), m.end()
        for p in ('(`', '($quote'):
            if self.at(i, p):
                t, j = self.raw(i + len(p))
                return ('str', t), j
        return None, i

    def string_py(self, i):
        """End of the Python string literal at i, or None.

        A literal in one quote ends on its line unless continued by a backslash; an unterminated one is plain text,
        an unterminated continued or triple-quoted one is an error."""
        s, j = self.s, i
        if j < self.n and s[j] in 'uU':
            j += 1
        if j < self.n and s[j] in 'rR':
            j += 1
        if j >= self.n or s[j] not in '\'"':
            return None
        q = s[j]
        if s.startswith(q * 3, j):
            # -- escapes never span a line here: a backslash before an end of line is an ordinary character
            k = j + 3
            while True:
                if k >= self.n:
                    raise Reject('unexpected end', self.n)
                if s.startswith(q * 3, k):
                    return k + 3
                k += 2 if s[k] == '\\' and k + 1 < self.n else 1
        k = j + 1
        first = True
        while True:
            if k >= self.n:
                if first:
                    return None
                raise Reject('unexpected end', self.n)
            c = s[k]
            if c == q:
                return k + 1
            if c == '\n':
                if first:
                    return None
                if s[k - 1] == '\\':     # not Python, but delimited all the same
                    k += 1
                    continue
                raise Reject('continuation expected', k)
            if c == '\\':
                if s.startswith('\n', k + 1):
                    first = False
                k += 2
            else:
                k += 1


def parse(s, python=False, skip=0, importer=None):
    s = s.replace('\r\n', '\n').replace('\r', '\n')
    return Parser(s, python, skip, importer).source()
