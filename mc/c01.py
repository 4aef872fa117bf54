"""C01: text outside preprocessor constructs passes through verbatim."""
from engine import Family, Map, Prod, Seq, Sum, Violation, Words
import harness as h
import refparse
from c20 import clean, unify

LEVEL = 'exploration'
RULE = ('every text over alphabets of critical characters and tokens up to a length, and every sequence of text pieces and '
        'constructs; texts that the grammar splits into plain text, literals and comments only must come out unchanged '
        '(up to the line clean-up); distinct = different outputs')
ASSUMPTIONS = ['which texts contain no construct is decided by the reference parser of C02']
PLAIN = ('plain', 'str', 'rem')


def check_text(case, ctx):
    text, py, skip = case
    try:
        tree = refparse.parse(text, bool(py), skip)
    except refparse.Reject:
        return None
    if any(x[0] not in PLAIN for x in tree[1]) or '(`' in text or '($quote' in text:
        return None
    want = clean(unify(text))
    o = h.translate(text, None, 'o.py' if py else 'o.c', pp_skip_comments=skip)
    if not o.ok:
        raise Violation('plain text fails\n%r %s' % (text, o.errors))
    if str(o.text) != want:
        raise Violation('plain text changed\ntext     %r\nexpected %r\ngot      %r' % (text, want, str(o.text)))
    off = h.translate(text, None, 'o.py' if py else 'o.c', pp_skip_comments=skip, pp_reduce_emptiness=False)
    if not off.ok or str(off.text) != unify(text):
        raise Violation('plain text changed with the clean-up off\ntext     %r\ngot      %r' % (text, off.text))
    return want


TEXTS = ['a', ' ', '\n', ' \n  ', 'b c', '\t', '(', ')', '[', ']', '$', '\\', ',,', '*', '"s"', '\xe9\xff', '`', "{x}", '#', '&']
APPS = [('($add 1 2)', '3'), ('($ "s")', '"s"'), ('($ [x])', 'x'), ('($let q 4 q)', '4'), ('($ [])', '')]
DEFS = ['($set z 1)', '($macro m () k)', '($! (c) )', '($set (z y)\n (1 2))']
PIECES = [('t', x, x) for x in TEXTS] + [('a',) + x for x in APPS] + [('d', x, '') for x in DEFS]
FEW = [PIECES[i] for i in (0, 1, 2, 3, 5, 6, 9, 14, 20, 25, 27)]


def layout(pieces):
    """The output: text verbatim, applications replaced, definitions at a line start with the white space after them gone."""
    out = []
    start = True            # nothing but white space and definitions on this line so far
    trim = False            # white space is being dropped
    for k, s, v in pieces:
        if k == 't':
            if trim:
                v = v.lstrip(' \t\n')
                if v:
                    trim = False
                if s == '"s"':
                    trim = False
            out.append(v)
            tail = s.rsplit('\n', 1)
            if len(tail) > 1:
                start = True
            if tail[-1].strip(' \t'):
                start = False
        elif k == 'a':
            out.append(v)
            start = trim = False
        else:
            trim = start
    return ''.join(out)


def check_around(case, ctx):
    pieces = [PIECES[i] for i in case[0]]
    py = case[1]
    text = ''.join(p[1] for p in pieces)
    try:
        tree = refparse.parse(text, bool(py), 0)
    except refparse.Reject:
        return None
    if sum(1 for x in tree[1] if x[0] not in PLAIN) != sum(p[0] != 't' for p in pieces) or '(`' in text:
        return None         # pieces of text that together form something else
    want = layout(pieces)
    for cfg, w in (({}, clean(want)), ({'pp_reduce_emptiness': False}, want)):
        o = h.translate(text, None, 'o.py' if py else 'o.c', **cfg)
        if not o.ok or str(o.text) != w:
            raise Violation('text around constructs changed (%r)\ntext     %r\nexpected %r\ngot      %r %s' % (
                cfg, text, w, o.text, o.errors))
    return want


def families(tier):
    t = tier == 'thorough'
    chars = [chr(c) for c in [9, 10, 13] + list(range(32, 256))]
    ctxs = ['%s', 'a%s', '%sa', ' %s ', '\n%s\n', '"%s"', "'%s'", '(%s', '[%s]', '\\%s', '%s%s', 'a %s b\n', '$%s', '($! c)%s', '%s($ [])']
    punct = [c for c in map(chr, range(33, 127)) if not c.isalnum()] + ['a', ' ', '\n', '0', '\xa0']
    toks = ['a', ' ', '\n', '(', ')', '[', ']', '"', "'", '\\', '$', '/', '*', '#', ',', '\t']
    toks_py = ['a', ' ', '\n', '(', '"', "'", '\\', '$', '#', '"""', "'''", 'r', 'u']
    f = [
        Family('chars', Sum(Map(lambda c: [c[1].replace('%s', c[0]), c[2], c[3]], Prod(chars, ctxs, [0, 1], [0, 1, 2]))), check_text,
               'every admissible character in every context, both languages, every comment mode'),
        Family('pairs', Map(lambda c: [c[0] + c[1], c[2], 0], Prod(chars, chars, [0, 1])), check_text, 'every pair of characters'),
        Family('triples', Map(lambda c: [''.join(c[:3]), c[3], 0], Prod(punct, punct, punct, [0, 1])), check_text,
               'every three punctuation marks'),
        Family('words-c', Map(lambda c: [''.join(c[0]), 0, c[1]], Prod(Words(toks, 5 if t else 4, 4), [0, 1])), check_text,
               'every text of critical tokens, C'),
        Family('words-py', Map(lambda c: [''.join(c[0]), 1, c[1]], Prod(Words(toks_py, 5 if t else 4, 4), [0, 2])), check_text,
               'every text of critical tokens, Python'),
        Family('around', Prod(Words(range(len(PIECES)), 4 if t else 3), [0, 1]), check_around,
               'every sequence of text pieces and constructs'),
        Family('around-long', Map(lambda c: [[PIECES.index(FEW[i]) for i in c], 0], Words(range(len(FEW)), 6 if t else 5, 4)),
               check_around, 'longer ones'),
    ]
    if t:
        f.append(Family('quadruples', Map(lambda c: [''.join(c), 0, 0], Prod(punct[:33], punct[:33], punct[:33], punct[:33])),
                        check_text, 'every four punctuation marks'))
    return f
