"""C19: substituted text keeps the layout rules."""
from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h
from c20 import clean
from refeval import dedent

LEVEL = 'exploration'
RULE = ('every block of lines over indents and contents x every place of a call x every way to denote the block, nested to '
        'depth two, against a layout model; with the trimming of indents on and off; distinct = different outputs')
ASSUMPTIONS = ['the column of an application that follows a definition is the one it has in the source',
               'white space is blanks and tabs; the lines of an output are compared without white space at their ends']
KEEP = '\ufdd0'
KEEP_TAB = '\ufdd1'


def T(s):
    return ('t', s)


def D(s):
    return ('d', s)


def A(src, value):
    """value: a string, or a list of tokens rendered as a text of its own"""
    return ('a', src, value)


def merge(tokens):
    out = []
    for k in tokens:
        if k[0] == 't' and out and out[-1][0] == 't':
            out[-1] = T(out[-1][1] + k[1])
        elif k[0] != 't' or k[1]:
            out.append(k)
    return out


def source(tokens):
    return ''.join(k[1] for k in tokens)


def value(v, on):
    return v if isinstance(v, str) else ''.join(value(x, on) for x in v) if isinstance(v, tuple) else render(v, on)


def render(tokens, on=True, indent=0):
    """The text a list of tokens is translated to."""
    out = []
    trim = False
    start = indent == 0
    indent = '' if start else indent
    # -- indent: white space before this place if nothing else precedes it on its line, else None
    for i, k in enumerate(merge(tokens)):
        if k[0] == 's':
            continue
        if k[0] == 'm':
            # -- a macro that assigns is text in place, its lines are indented as the call
            put = [T(x[1].replace('\n', '\n' + (indent or ''))) if x[0] == 't' else x for x in k[2]]
            rest = merge(tokens)[i + 1:]
            return ''.join(out) + render(put + [('s', '')] + rest, on, indent)
        if k[0] == 't':
            s = k[1]
            out.append(s.lstrip(' \t\n') if trim else s)
            trim = False
            nl = s.rfind('\n')
            tail = s[nl + 1:]
            if tail.strip(' \t'):
                indent = None
            elif nl >= 0:
                indent = tail
            elif i == 0 and start:
                indent = tail
        elif k[0] == 'd':
            trim = indent is not None and on
        else:
            v = value(k[2], on)
            if on and v:
                lines = dedent(v).split('\n')
                v = lines[0]
                for x in lines[1:-1]:
                    v += '\n' + (indent or '') + x
                if len(lines) > 1:
                    v += '\n' + ((indent or '') + lines[-1] if lines[-1] else '')
            out.append(v)
            indent = None
            trim = False
    return ''.join(out)


def rstrip(t):
    return '\n'.join(x.rstrip(' \t') for x in t.split('\n'))


def judge(tokens):
    text = source(tokens)
    seen = None
    for cfg, on in (({}, True), ({'pp_trim_app_indent': False}, False)):
        want = render(tokens, on)
        for red in (True, False):
            o = h.translate(text, pp_reduce_emptiness=red, **cfg)
            if not o.ok:
                raise Violation('fails\n%s\n%s' % (text, o.errors))
            got = str(o.text)
            w = clean(want) if red else want
            w = w.replace(KEEP, ' ').replace(KEEP_TAB, '\t')
            if got != w if red or not on else rstrip(got) != rstrip(w):
                raise Violation('layout (%r, clean-up %r)\nprogram:\n%s\nexpected\n%r\ngot\n%r' % (cfg, red, text, w, got))
            if seen is None:
                seen = got
    return seen


PLACE = [[], [T('  ')], [T('\n')], [T('\n  ')], [T('a ')], [T('\n  a ')], [T('\n\t')], [T('\n'), D('($set q 1)')],
         [T('\n '), D('($! c)'), T(' ')], [T('\n '), D('($macro k () z)'), T('\n   ')], [T('"s" ')], [T('\n  '), A('($add 1 2)', '3'), T(' ')],
         [T('\n \t')], [T('\n\t ')], [T('\n    ($set'[:5]), A('($ [])', '')]]
REST = [[], [T('z')], [T('\n')], [T(' \n  b')], [D('($set q 2)'), T(' \n c')], [T('\n    '), A('($m0)', [T('u\n v')]), T('\n')]]
M0 = '($macro m0 ()u\n v)'


def denote(style, block):
    """(definition, call) tokens: ways to have a block of tokens substituted."""
    s = source(block)
    if style == 'set':
        return D('($set b [%s])' % s), A('($b)', block)
    if style == 'eol':
        return D('($set b ]\n%s\n[)' % s), A('($b)', block)
    if style == 'function':
        return D('($set b \\p.[%s])' % s), A('($b 1)', block)
    if style == 'macro':
        return D('($macro b ()%s)' % s), A('($b)', block)
    if style == 'inline':
        return None, A('($ [%s])' % s, block)
    if style == 'twice':
        return D('($set b [%s])' % s), A('($ (b b))', (block, block))
    if style == 'loop':
        return D('($set b \\p.[%s])' % s), A('($ (1 2) b)', (block, block))
    if style == 'through':
        return D('($set b [%s])($set f \\x.[($x)])' % s), A('($f b)', [A('', block)])
    raise AssertionError(style)


STYLES = ['set', 'eol', 'function', 'macro', 'inline', 'twice', 'loop', 'through']
IND = ['', ' ', '   ', '\t', ' \t']
CONT = ['x', '', 'y z', '($SPACE)w', ' ']


def line(i):
    ind, c = divmod(i, len(CONT))
    out = [T(IND[ind])]
    if CONT[c] == '($SPACE)w':
        out += [A('($SPACE)', KEEP), T('w')]
    else:
        out.append(T(CONT[c]))
    return out


def block_of(lines):
    out = []
    for i, x in enumerate(lines):
        if i:
            out.append(T('\n'))
        out += line(x) if isinstance(x, int) else x
    return out


def empty_start(block):
    """A macro or function text of no more than white space or a definition: how it is written is a matter of C07."""
    return not source(block).strip()


def check_block(case, ctx):
    lines, place, rest, style = case
    block = block_of(lines)
    if style in ('macro', 'eol', 'inline') and empty_start(block):
        return None
    d, a = denote(style, block)
    head = [D(M0)] + ([d] if d else []) + [T('.')]
    return judge(head + PLACE[place] + [a] + REST[rest])


def check_first(case, ctx):
    """The call is the first thing in the file or comes right after the definitions."""
    lines, lead, style = case
    block = block_of(lines)
    if style in ('macro', 'eol', 'inline') and empty_start(block):
        return None
    d, a = denote(style, block)
    return judge(([d] if d else []) + [T(lead)] + [a] + [T('\nend')])


INNER = [[T('i')], [T('i\n j')], [T('  i\n j')], [T('\n  i\n\n   j\n')], [T('\ti\n\tj')]]
OUTER = [([], []), ([T('  ')], [T('\n z')]), ([T('x\n  ')], [T('\n  z')]), ([T('\n    ')], [T('k\n  z')]), ([T('  x\n    y ')], [T('\n  z')]),
         ([T('\n  '), D('($set w 3)')], [T('\n  z')]), ([T('\n '), D('($! c)'), T('\n   ')], [T('\n   z\n')])]
STYLE_IN = ['set', 'macro', 'function', 'inline', 'loop']


def check_nested(case, ctx):
    inner, si, outer, so, place, rest = case
    d1, a1 = denote(si, INNER[inner])
    pre, post = OUTER[outer]
    block = pre + [a1] + post
    d2, a2 = denote(so, block)
    head = []
    if d1:
        head.append(D(d1[1].replace('set b', 'set n').replace('macro b', 'macro n')))
        a1 = A(a1[1].replace('($b', '($n').replace(' b)', ' n)').replace(' b ', ' n '), a1[2])
        block = pre + [a1] + post
        d2, a2 = denote(so, block)
    if so == 'macro' and '($set w' in source(block):
        return None         # a macro that assigns is text in place
    head += [d2] if d2 else []
    return judge([D(M0)] + head + [T('.')] + PLACE[place] + [a2] + REST[rest])


PARAM = [[T('1')], [T('p\n q')], [T('  p\n q')], [T('\n p\n')]]


def check_param(case, ctx):
    """A block passed as an argument and substituted inside another."""
    arg, outer, place, how = case
    pre, post = OUTER[outer]
    if how == 'function':
        body = pre + [A('($p)', PARAM[arg])] + post
        d = [D('($set f \\p.[%s])($set v [%s])' % (source(body), source(PARAM[arg])))]
        a = A('($f v)', body)
    elif how == 'direct':
        body = pre + [A('($p)', PARAM[arg])] + post
        d = [D('($set f \\p.[%s])' % source(body))]
        a = A('($f [%s])' % source(PARAM[arg]), body)
    elif how == 'two':
        body = pre + [A('($p)', PARAM[arg])] + post + [T('\n '), A('($q)', PARAM[arg])]
        d = [D('($set f \\p.\\q.[%s])' % source(body))]
        a = A('($f,,%s,,%s)' % (source(PARAM[arg]), source(PARAM[arg])), body)
    else:               # in parts of a macro text: the argument's text is part of the macro's
        if any(k[0] == 'd' and 'set' in k[1] for k in pre):
            return None
        body = pre + PARAM[arg] + post
        d = [D('($macro f (p)%s)' % source(pre + [T('($p)')] + post))]
        a = A('($f (`%s))' % source(PARAM[arg]), body)
    return judge(d + [T('.')] + PLACE[place] + [a])


PIECE = [T('a'), T('\n'), T('\n  '), T('\n\t'), T(' k'), D('($set w 3)'), A('($n)', [T('i\n  j')]), A('($add 1 2)', '3'), D('($! c)')]


def check_inplace(case, ctx):
    """A macro with assignments in its text."""
    word, place, rest = case
    body = merge([PIECE[i] for i in word])
    if 5 not in word or body[0][0] == 't' and not body[0][1].strip():
        return None
    d = [D('($set n [i\n  j])($macro b ()%s)' % source(body)), D(M0)]
    return judge(d + [T('.')] + PLACE[place] + [('m', '($b)', body)] + REST[rest])


def families(tier):
    t = tier == 'thorough'
    n = range(len(IND) * len(CONT))
    return [
        Family('line', Prod(Words(n, 1, 1), range(len(PLACE)), range(len(REST)), STYLES), check_block,
               'every line as a block at every place, followed by anything'),
        Family('blocks', Prod(Words(n, 3 if t else 2, 2), range(len(PLACE)), range(len(REST)) if t else [0, 5], STYLES), check_block,
               'every block of two lines at every place'),
        Family('lines', Prod(Words(n, 4 if t else 3, 3), [3, 4] if not t else range(len(PLACE)), [0], ['set'] if not t else STYLES),
               check_block, 'every block of three lines'),
        Family('first', Prod(Words(n, 2, 1), ['', ' ', '\n', '\n  ', '\t'], STYLES), check_first,
               'calls at the start of the text'),
        Family('nested', Prod(range(len(INNER)), STYLE_IN, range(len(OUTER)), STYLES, range(len(PLACE)), [0, 3] if not t else range(len(REST))),
               check_nested, 'a block inside a block'),
        Family('inplace', Sum(Prod(Words(range(len(PIECE)), 4 if t else 3, 1), range(len(PLACE)), range(len(REST)) if t else [0, 2, 3]),
                              Prod(Words(range(len(PIECE)), 5 if t else 4, 4), [4, 6, 8], [3])), check_inplace, 'macros that assign'),
        Family('parameters', Prod(range(len(PARAM)), range(len(OUTER)), range(len(PLACE)), ['function', 'direct', 'two', 'macro']),
               check_param, 'blocks passed as arguments'),
    ]
