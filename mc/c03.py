"""C03: every input ends in a text or in a reported failure."""
import os
import warnings

from engine import Family, Map, Prod, Seq, Sum, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every sequence of tokens, characters, every function applied to every kind of value, every construct filled with '
        'every kind of value, translated under several configurations; each must return success with a text and no error '
        'or failure with exactly one error report, in time; distinct = different (outcome, kind of error) classes')
ASSUMPTIONS = ['recursion the program itself makes unbounded, and inline Python that does not end, are excluded']

warnings.simplefilter('ignore')

CONFIGS = {
    'plain': {}, 'browse': {'pp_browse': True}, 'notrim': {'pp_trim_app_indent': False},
    'noreduce': {'pp_reduce_emptiness': False}, 'c': {'pp_skip_comments': 1}, 'py': {'pp_skip_comments': 2},
    'auto': {'pp_skip_comments': 3}, 'define': {'pp_define': ['x:3', 'y', 'z: q']},
    'all': {'pp_browse': True, 'pp_trim_app_indent': False, 'pp_reduce_emptiness': False, 'pp_skip_comments': 3},
}


def judge(text, o):
    errs = o.errors
    if o.ok:
        if not isinstance(o.text, str):
            raise Violation('%r\nsuccess with %r' % (text, o.text))
        if errs:
            raise Violation('%r\nsuccess with the error %r' % (text, errs))
        return 'ok'
    if len(errs) != 1:
        raise Violation('%r\nfailure with %d error reports: %r' % (text, len(errs), errs))
    e = errs[0].strip()
    if e.startswith('unable to translate'):
        return 'ast'
    if o.text:
        raise Violation('%r\nfailure %r with the text %r' % (text, e, o.text))
    return ' '.join(e.split('\n')[0].split()[:4])[:60]


def run(text, cfg='plain', out=None, stage=0, tb=1):
    c = CONFIGS[cfg]
    h.yugen.trace.stage = stage
    h.yup.shell.traceback = tb
    try:
        with h.captured():
            try:
                o = h.translate(text, 'd/in.yu-c' if out else None, out, **c)
            except Exception as e:
                raise Violation('%r (%s)\n%s to the caller: %s' % (text, cfg, type(e).__name__, e))
        return judge(text, o)
    finally:
        h.yugen.trace.stage = 0
        h.yup.shell.traceback = 1
        del h.TRACE.rec[:]


def check_text(case, ctx):
    pre, words, post, cfg, out = case
    return run(pre + ''.join(words) + post, cfg, out)


TOKENS = ['(', ')', '[', ']', '[]', '($', '($ ', 'a', ' ', '\n', '1', '"s"', "'", '"', '\\p.', '\\', '..', '...', '`', '(`', '{', '}', '($set ',
          '($let ', '($macro ', '($import ', '($! ', '(${}', '$', '?', '|', '*', '&', '.', ':', '//', '/*', '*/', '#', '0x', '-', '\\set']
CHARS = ['(', ')', '$', '\\', '.', ' ', '\n', 'a', '1', '"', "'", '`', '{', '}', '[', ']', ':', '?', '|', '*', '!', '&', '-', '0', '\t',
         '\xff', '\x85', '\0', '\u20ac', '/', '#', 'e', 'x', 'L', '_', '~', ',', '%']
CORE = ['(', ')', '($', 'a', ' ', '1', '"s"', '\\p.', '..', '`', '{', '}', '($set ', '(${}', '?', '|', '*', '\n', ']', ')']

VALUES = ['1', '0', '-3', '2.5', '"s"', '"12"', "''", 'u', '(1 2 3)', '()', '("b" "a")', '((1 2) (3))', '($ \\p.p)', '\\q.(q q)',
          'add', 'len', '`t ($u)`'.replace('`t ($u)`', '(`t)'), '[text ($add 1 2)]', 'M', 'SET', '($lazy 5)', '{ 7 }', '{ [1] }', '&u',
          '($u 1)', '\\..W.W', '\\a\\b:3.(a b)', '($__FILE__)', 'skip', 'math', '__PASSAGE__', '1e400', '{ None }', '{ {} }', '255', '\\k:2.[K]',
          '*(1 2)', '\\n 5', '{ (1, 2) }']
PRE = '($macro M (p) [($p)])($macro SET (p) ($set z ($p)))'
FEW = [0, 1, 3, 4, 7, 8, 9, 12, 14, 16, 18]


def names():
    h.configure()
    h.yugen.yushell('')
    out = set(k for k in h.yugen.builtin if isinstance(k, str)) | set(getattr(h.yugen, 'builtin_special', ()))
    return sorted(str(x) for x in out)


def check_call(case, ctx):
    name, args, cfg = case
    return run(PRE + '<($%s%s)>' % (name, ''.join(' ' + VALUES[i] for i in args)), cfg)


# -- constructs; %s are the slots
SHAPES = ['($set x %s)($x)', '($set (x y) %s)($x)($y)', '($let x %s %s)', '($ %s %s)', '($ %s)', '(%s)', '($$ %s)', '($ %s ? %s | %s)',
          '($ %s ? %s)', '($ %s *%s)', '($ %s \\p %s)', '($ \\p.%s %s)', '($ \\p:%s.(p) %s)', '($ \\..p.%s %s)', '(${} %s %s)', '(${} %s)',
          '($set x %s)(${} x %s)($x)', '($set x %s)($emit x %s)($x)', '($set x %s)($emit x)($emit x)($x)', '($M %s)', '($SET %s)($z)', '($macro N (p) %s)($N %s)', '{ %s }', '({ %s })', '($ "<($0)>" %s)',
          '($set x %s)({ x })', '($set x %s)({ x + x })', '($! %s)', '($import %s)', '($isatom %s)', '($lazy %s)', '($reduce %s %s)', '($repr %s)',
          '($__PASSAGE__ %s)', '($set __OUTPUT_FILE__ %s)', '[%s]', '($ [%s] %s)', '($ (%s %s) %s)', '($ &%s)', '($ \\&e\\p.(p) %s)',
          '($ \\p.($ \\q.%s p) %s)', '($typeof %s)', '($str %s)', '($qs %s)', '($ \\p\\q.(p ? q | %s) %s)', '($set f \\a.%s)($f %s)',
          '  ($ %s)\n', '($ `%s`)', '(`%s)', '($ ($ %s) %s)', '($let (x y) %s %s)', '($emit %s)', '(%s ? %s | %s)', '($ \\e&p.(%s) %s)', '($ %s ..%s)']


def fill(shape, vals):
    n = shape.count('%s')
    return shape % tuple(vals[i % len(vals)] for i in range(n))


def check_shape(case, ctx):
    s, vals, cfg = case
    return run(PRE + '<' + fill(SHAPES[s], [VALUES[i] for i in vals]) + '>', cfg)


def check_nest(case, ctx):
    s, t, vals, cfg = case
    v = [VALUES[i] for i in vals]
    return run(PRE + '<' + fill(SHAPES[s], [fill(SHAPES[t], v)] + v) + '>', cfg)


def check_mode(case, ctx):
    text, cfg, out, stage, tb = case
    if not os.path.exists('m.yu'):
        with open('m.yu', 'w') as f:
            f.write('($set f \\p.($add p 1))')
    return run(text, cfg, out, stage, tb)


def check_depth(case, ctx):
    a, mid, b, n = case
    return run(a * n + mid + b * n)


def check_file(case, ctx):
    """Whole files of bytes through the command."""
    data, = case
    root = ctx.dir()
    fn = os.path.join(root, 'f.yu-c')
    with open(fn, 'wb') as f:
        f.write(bytes(bytearray(data)))
    try:
        rc, stdout, logs = h.cli(['-q', fn])
    except Exception as e:
        raise Violation('file %r: %s to the caller: %s' % (data, type(e).__name__, e))
    errs = [m for lv, m in logs if lv >= 40]
    made = os.path.isfile(os.path.join(root, 'f.c'))
    if (rc, len(errs), made) not in ((0, 0, True), (4, 1, False)):
        raise Violation('file %r: status %r, %d errors, output %s' % (bytes(bytearray(data)), rc, len(errs), made))
    return rc, errs[0].split('\n')[1][:40] if errs else ''


def families(tier):
    t = tier == 'thorough'
    outs = [None, 'o.py']
    some = ['($', '($set x', 'a ($add 1 "s")', '($ \\p.(1 ($p)))', 'ok ($add 1 2)\n  ($ (1 2) \\p.[p\n ])', PRE + '($M ($M 1))($SET 2)($z)',
            '"\'', '/* ($a', '# coding: yupp\nx = """($add 1', '($import "m.yu")($f 3)', '($import none)', '', '\n\n\n', '($strlen q)',
            '($import { "($set x 1)" })($x)', '($import { 1/0 })', '($__TITLE__)', '($ 1 2 3)', '($unq "x)', '\xff\xfe', '($nofn a)', '($set x 1)',
            '($M 1)', '($macro M (p) ($add ($p) ))($M 1)', '($SPACE)\t($TAB)', '($ {1+})', '($ "%s" 1)', '($set l (1 2))(${} l)(${} l cdr)(${} l)($l)']
    byts = [0x28, 0x24, 0x29, 0x61, 0x20, 0x0a, 0x0d, 0xc3, 0xa9, 0xff, 0x00, 0xe2, 0xef, 0xbb, 0xbf, 0x1a]
    names_ = names()
    docs = [x for x in names_ if not x.startswith('_')]
    vals = range(len(VALUES))
    return [
        Family('tokens', Prod([''], Map(list, Words(TOKENS, 4 if t else 3)), [''], ['plain'], [None]), check_text,
               'every sequence of tokens'),
        Family('core', Prod([''], Map(list, Words(CORE if t else CORE[:-4], 5 if t else 4, 4)), [''], ['plain'], [None]), check_text,
               'every sequence of the tokens that nest'),
        Family('inner', Prod(['($ ', '($set x ', '"', '(`', '($macro m (', '{ ', '($ \\p'], Map(list, Words(TOKENS, 3 if t else 2)),
                             [')', '', '))'], ['plain', 'all'], [None]), check_text, 'every sequence of tokens inside a construct'),
        Family('chars', Prod([''], Map(list, Words(CHARS, 4 if t else 3)), [''], ['plain'], [None]), check_text,
               'every sequence of characters'),
        Family('python', Prod(['', '# coding: yupp\n', '#!\n# coding:yupp\n'], Map(list, Words(TOKENS + ['"""', "r'", "\\'"], 3 if t else 2)), ['', '\n'],
                              sorted(CONFIGS) if t else ['plain', 'all'], ['o.py']), check_text, 'every sequence of tokens in a Python source'),
        Family('configs', Prod([''], Map(list, Words(TOKENS, 2)), [''], sorted(CONFIGS), outs), check_text,
               'every configuration'),
        Family('calls', Prod(names_, Map(list, Words(vals, 2)) if t else Sum(Map(list, Words(vals, 1)), Prod(FEW, FEW)),
                             ['plain', 'browse'] if t else ['plain']), check_call,
               'every function applied to every kind of value'),
        Family('calls3', Prod(docs, Prod(FEW, FEW, FEW) if t else Prod(FEW[::3], FEW[::3], FEW[::3]), ['plain']), check_call,
               'every documented function applied to three values'),
        Family('shapes', Prod(range(len(SHAPES)), Sum(Prod(vals), Prod(vals, vals if t else FEW)), ['plain', 'browse'] if not t else sorted(CONFIGS)), check_shape,
               'every construct with every kind of value in its places'),
        Family('nested', Prod(range(len(SHAPES)), range(len(SHAPES)), Prod(vals, vals) if t else Prod(FEW), ['plain', 'browse'] if t else ['plain']), check_nest,
               'every construct inside every construct'),
        Family('modes', Prod(some, sorted(CONFIGS), outs, [0, 1, 2, 3], [0, 1, 2]), check_mode,
               'every combination of diagnostics and configuration'),
        Family('depth', Prod(['(', '($ ', '[', '($add 1 ', '($ (', '{', '($let x 1 ', '($set x ', '($! '], ['1', '', '($x)'],
                             [')', '', ']', '))', '}'], [10, 100, 400] if not t else [10, 100, 400, 1000, 3000]), check_depth,
               'deep nesting', chunk=2),
        Family('depthlambda', Prod(['($ \\p.', '($ \\p.('], ['1', '', '($x)', '($p)'], [')', '', ']', '))', '}'], [2, 10, 24, 32] if not t else [2, 10, 32, 50]),
               check_depth, 'deep nesting of functions', chunk=2),
        Family('bytes', Prod(Map(list, Words(byts, 4 if t else 3))), check_file, 'every short file of bytes through the command'),
    ]
