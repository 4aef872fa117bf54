"""C10: built-in functions compute their documented value and have no memory."""
import ast
import math
import operator
import os
import re
import zlib
from functools import reduce

from engine import Family, Map, Prod, Seq, Sum, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every documented function x every tuple of values from a domain, called with the values and with names that hold '
        'them, and every ordered pair of calls; against a table written from the documentation; distinct = different results')
ASSUMPTIONS = ['arguments for which the documentation promises no value are not judged',
               'a number may be rendered as an integer or as the float of the same value where the documentation of Python 2 '
               'and the Python in use differ (ceil, floor, round, pow, trunc)']


class No(Exception):
    """Not an admissible argument."""


class Atom(str):
    pass


class Lit(str):
    """with quotes"""


class Alt(object):
    def __init__(self, *v):
        self.v = v


VALUES = [('0', 0), ('1', 1), ('2', 2), ('-1', -1), ('5', 5), ('255', 255), ('0.5', 0.5), ('2.0', 2.0), ('-1.5', -1.5),
          ('abc', Atom('abc')), ('Xy', Atom('Xy')), ('"ab"', Lit('"ab"')), ("'x'", Lit("'x'")), ('(`b)', 'b'), ('(`a b  c)', 'a b  c'),
          ('(`)', ''), ('(` x )', ' x '), ('(`12)', '12'), ('(`-3)', '-3'), ('(`0.25)', '0.25'), ('()', []), ('(1 2 3)', [1, 2, 3]),
          ('(3 1 2 1)', [3, 1, 2, 1]), ('((1 2) (3) (1 2))', [[1, 2], [3], [1, 2]]), ('(abc b abc)', [Atom('abc'), Atom('b'), Atom('abc')]),
          ('((`b) (`-))', ['b', '-'])]
SMALL = [0, 1, 2, 3, 4, 7, 9, 13, 14, 15, 17, 20, 21, 22, 25]


def num(*x):
    for v in x:
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            raise No


def integer(*x):
    for v in x:
        if not isinstance(v, int):
            raise No


def text(*x):
    for v in x:
        if not isinstance(v, str):
            raise No


def lst(*x):
    for v in x:
        if not isinstance(v, list):
            raise No


def alike(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return
    if isinstance(a, str) and isinstance(b, str):
        return
    if isinstance(a, list) and isinstance(b, list) and all(isinstance(x, (int, float)) for x in a + b):
        return
    raise No


def scalar(v):
    if isinstance(v, list):
        raise No


def words(v):
    lst(v)
    text(*v)


def unq(v):
    scalar(v)
    return v[1:-1] if isinstance(v, Lit) else str(v)


def F(check, f):
    def g(*a):
        if check:
            for v in a:
                check(v)
        return f(*a)
    return g


def t1(f):
    """first a text, the rest as Python likes it"""
    def g(s, *a):
        text(s)
        return f(str(s), *a)
    return g


def cmpf(op):
    def g(a, b):
        alike(a, b)
        return op(a, b)
    return g


def f_add(a, b):
    if isinstance(a, list) or isinstance(b, list):
        lst(a, b)
    elif isinstance(a, str) or isinstance(b, str):
        text(a, b)
        return str(a) + str(b)
    return a + b


def f_eq(a, b):
    if type(a) is type(b) or isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    raise No


def f_getslice(s, start, *rest):
    scalar(start)
    if isinstance(s, (int, float)) or len(rest) > 2:
        raise No
    a = [None if v == '' else v for v in (start,) + rest]
    for v in a:
        if v is not None:
            integer(v)
    a += [None] * (3 - len(a))
    if a[2] == 0:
        raise No
    return (str(s) if isinstance(s, str) else s)[a[0]:a[1]:a[2]]


def f_index(l, x):
    lst(l)
    for i, v in enumerate(l):
        if v == x:
            return i
    return -1


def f_rindex(l, x):
    lst(l)
    for i in range(len(l) - 1, -1, -1):
        if l[i] == x:
            return i
    return -1


def f_unique(l):
    lst(l)
    out = []
    for v in l:
        if not any(v == w for w in out):
            out.append(v)
    return out


def f_int(x=0, *base):
    scalar(x)
    if base:
        text(x)
        integer(*base)
        if base[0] < 2:
            raise No
    return int(x, *base)


def f_range(*a):
    integer(*a)
    if not 1 <= len(a) <= 3 or len(a) == 3 and a[2] == 0:
        raise No
    return list(range(*a))


def f_round(x, n=0):
    num(x)
    integer(n)
    v = round(float(x), n)
    return Alt(v, int(v)) if v == int(v) else v


def f_sum(l, start=0):
    lst(l)
    num(start, *l)
    return sum(l, start)


def f_str(x):
    scalar(x)
    return str(x)


def f_resplit(p, s):
    text(p, s)
    if p == '':
        raise No
    return [x for x in re.split(p, str(s)) if x]


def f_split(s, sep=None, m=-1):
    text(s)
    if sep is not None:
        text(sep)
        if not sep:
            raise No
    integer(m)
    if m == 0:
        raise No
    return str(s).split(sep, m)


def f_join(w, sep=' '):
    words(w)
    text(sep)
    return str(sep).join(w)


def f_mod(a, b):
    if isinstance(a, str):
        raise No
    num(a, b)
    return a % b


def f_contains(s, x):
    if isinstance(s, list):
        return x in s
    text(s, x)
    return x in s


def f_concat(a, b):
    if isinstance(a, list):
        lst(b)
        return a + b
    text(a, b)
    return str(a) + str(b)


def f_getitem(o, k):
    integer(k)
    if isinstance(o, (int, float)) or not -len(o) <= k < len(o):
        raise No
    return o[k]


def f_repeat(s, n):
    integer(n)
    if isinstance(s, (int, float)):
        raise No
    return (str(s) if isinstance(s, str) else s) * n


def f_mul(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a * b
    if isinstance(b, (int, float)):
        return f_repeat(a, b)
    raise No


def f_pow(a, b):
    num(a, b)
    if a < 0 and b != int(b):
        raise No
    v = a ** b
    return Alt(v, float(v))


def whole(f):
    def g(x):
        num(x)
        return Alt(int(f(x)), float(f(x)))
    return g


def shift(op):
    def g(a, b):
        integer(a, b)
        if b < 0 or b > 64:
            raise No
        return op(a, b)
    return g


def f_case(f):
    def g(s):
        text(s)
        return f(str(s))
    return g


def f_ord(x):
    if isinstance(x, Lit):
        raise No
    s = str(x)
    if isinstance(x, list) or len(s) != 1:
        raise No
    return ord(s)


def f_chr(x):
    integer(x)
    if not 33 <= x <= 126 and not 161 <= x <= 255:
        raise No
    return chr(x)


def f_q(mark):
    def g(x):
        if isinstance(x, (list, Lit)):
            raise No
        return mark + str(x) + mark
    return g


def f_just(f):
    def g(s, w):
        text(s)
        integer(w)
        return f(str(s), w)
    return g


def f_find(name):
    def g(s, sub, *a):
        text(s, sub)
        integer(*a)
        if len(a) > 2:
            raise No
        return getattr(str(s), name)(sub, *a)
    return g


def f_replace(s, a, b, *n):
    text(s, a, b)
    integer(*n)
    if n and n[0] < 1 or not a:
        raise No
    return str(s).replace(a, b, *n)


def f_atoi(s, base=10):
    text(s)
    integer(base)
    if isinstance(s, Lit) or base in (0, 1):
        raise No
    return int(str(s), base)


def f_atof(s):
    text(s)
    return float(str(s))


def f_zfill(s, w):
    scalar(s)
    integer(w)
    return str(s).zfill(w)


def f_int1(f):
    def g(x):
        integer(x)
        return f(x)
    return g


def f_bits(op):
    def g(a, b):
        integer(a, b)
        return op(a, b)
    return g


def M(name):
    f = getattr(math, name)

    def g(*a):
        num(*a)
        return f(*[float(x) for x in a])
    return g


def f_fsum(l):
    lst(l)
    num(*l)
    return math.fsum(l)


def f_factorial(x):
    integer(x)
    if x > 20:
        raise No
    return math.factorial(x)


def f_ldexp(x, i):
    num(x)
    integer(i)
    return math.ldexp(x, i)


def f_translate(s, a, b, *d):
    """($translate s ($maketrans a b) d)"""
    text(s, a, b, *d)
    if len(a) != len(b) or len(d) > 1:
        raise No
    m = dict(zip(a, b))
    return ''.join(m.get(x, x) for x in s if not d or x not in d[0])


def f_capwords(s):
    text(s)
    return ' '.join(w.capitalize() for w in str(s).split())


def f_expandtabs(s, n):
    text(s)
    integer(n)
    return str(s).expandtabs(n)


def f_cdr(l):
    lst(l)
    return l[1:]


def f_car(l):
    lst(l)
    return l[:1]


def f_len(l):
    lst(l)
    return len(l)


def f_reversed(l):
    lst(l)
    return l[::-1]


def f_div(op):
    def g(a, b):
        num(a, b)
        return op(a, b)
    return g


def f_isatom(x):
    return isinstance(x, Atom)


def f_cmp(a, b):
    alike(a, b)
    return (a > b) - (a < b)


def f_hex(x):
    integer(x)
    return hex(x)


def f_oct(x):
    integer(x)
    return Alt(oct(x), oct(x).replace('0o', '0'))


TABLE = {      # name: (function, arities)
    'car': (f_car, 1), 'cdr': (f_cdr, 1), 'chr': (f_chr, 1), 'cmp': (f_cmp, 2),
    'crc32': (lambda s: text(s) or zlib.crc32(s.encode('utf8')) & 0xffffffff, 1), 'dec': (lambda x: num(x) or x - 1, 1),
    'getslice': (f_getslice, 234), 'hex': (f_hex, 1), 'inc': (lambda x: num(x) or x + 1, 1), 'index': (f_index, 2),
    'rindex': (f_rindex, 2), 'int_': (f_int, 12), 'isatom': (f_isatom, 1), 'isdigit': (lambda s: scalar(s) or str(s).isdigit(), 1),
    'islist': (lambda x: isinstance(x, list), 1), 'len': (f_len, 1), 'list': (lambda *a: list(a), 123), 'oct': (f_oct, 1),
    'ord': (f_ord, 1), 'q': (f_q('"'), 1), 'qs': (f_q("'"), 1), 'range': (f_range, 123), 'reversed': (f_reversed, 1),
    're-split': (f_resplit, 2), 'round': (f_round, 12), 'str': (f_str, 1), 'strlen': (lambda s: scalar(s) or len(unq(s)), 1),
    'sum': (f_sum, 12), 'unique': (f_unique, 1), 'unq': (unq, 1), 'abs': (lambda x: num(x) or abs(x), 1),
    'add': (f_add, 2), 'concat': (f_concat, 2), 'contains': (f_contains, 2), 'div': (f_div(operator.truediv), 2),
    'floordiv': (f_div(operator.floordiv), 2), 'and': (f_bits(operator.and_), 2), 'xor': (f_bits(operator.xor), 2),
    'invert': (f_int1(operator.invert), 1), 'or': (f_bits(operator.or_), 2), 'pow': (f_pow, 2), 'getitem': (f_getitem, 2),
    'lshift': (shift(operator.lshift), 2), 'rshift': (shift(operator.rshift), 2), 'mod': (f_mod, 2), 'mul': (f_mul, 2),
    'neg': (lambda x: num(x) or -x, 1), 'not': (lambda x: not x, 1), 'pos': (lambda x: num(x) or +x, 1),
    'repeat': (f_repeat, 2), 'sub': (lambda a, b: num(a, b) or a - b, 2), 'truth': (lambda x: bool(x), 1),
    'lt': (cmpf(operator.lt), 2), 'le': (cmpf(operator.le), 2), 'eq': (f_eq, 2), 'ne': (lambda a, b: not f_eq(a, b), 2),
    'ge': (cmpf(operator.ge), 2), 'gt': (cmpf(operator.gt), 2),
    'ceil': (whole(math.ceil), 1), 'floor': (whole(math.floor), 1), 'trunc': (whole(math.trunc), 1),
    'factorial': (f_factorial, 1), 'fsum': (f_fsum, 1), 'ldexp': (f_ldexp, 2), 'modf': (lambda x: num(x) or list(math.modf(x)), 1),
    'atof': (f_atof, 1), 'atoi': (f_atoi, 12), 'atol': (f_atoi, 12), 'capitalize': (f_case(str.capitalize), 1),
    'capwords': (f_capwords, 1), 'expandtabs': (f_expandtabs, 2), 'find': (f_find('find'), 234), 'rfind': (f_find('rfind'), 234),
    'count': (f_find('count'), 234), 'lower': (f_case(str.lower), 1), 'upper': (f_case(str.upper), 1),
    'swapcase': (f_case(str.swapcase), 1), 'split': (f_split, 123), 'join': (f_join, 12), 'lstrip': (f_case(str.lstrip), 1),
    'rstrip': (f_case(str.rstrip), 1), 'strip': (f_case(str.strip), 1), 'ljust': (f_just(str.ljust), 2),
    'rjust': (f_just(str.rjust), 2), 'center': (f_just(str.center), 2), 'zfill': (f_zfill, 2), 'replace': (f_replace, 34),
    'translate': (f_translate, 34),
}
for _n in ('acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs',
           'gamma', 'isinf', 'isnan', 'lgamma', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan', 'tanh'):
    TABLE[_n] = (M(_n), 1)
for _n in ('atan2', 'copysign', 'fmod', 'hypot'):
    TABLE[_n] = (M(_n), 2)
TABLE['log'] = (M('log'), 12)
CONST = {'pi': math.pi, 'e': math.e, 'digits': '0123456789', 'hexdigits': '0123456789abcdefABCDEF', 'octdigits': '01234567',
         'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
         'ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'}
NAMES = sorted(TABLE)


def show_value(v):
    if isinstance(v, list):
        return ''.join(show_value(x) for x in v)
    return str(int(v)) if isinstance(v, bool) else str(v)


def shown(v):
    """What the display of a result gives."""
    s = '<' + show_value(v) + '>'
    if isinstance(v, list):
        return s + '1' + ''.join('{' + show_value(x) + '}' for x in v)
    return s + '0'


def alternatives(v):
    if isinstance(v, Alt):
        return [shown(x) for x in v.v]
    return [shown(v)]


SHOW = '<($let z r z)>($islist r)($ ($ r \\x.[{($let z x z)}]) ? ($islist r) | (`))'


def call(name, args):
    if name == 'translate':
        return '($translate %s ($maketrans %s %s)%s)' % (args[0], args[1], args[2], ''.join(' ' + x for x in args[3:]))
    return '($%s%s)' % (name, ''.join(' ' + x for x in args))


def ask(src, ctx):
    o = h.translate('.' + src)
    if not o.ok:
        raise Violation('fails\nprogram: %s\n%s' % (src, o.errors))
    return str(o.text)


def expect(name, args):
    """The renderings allowed, or None if nothing is promised."""
    try:
        return alternatives(TABLE[name][0](*[VALUES[i][1] for i in args]))
    except No:
        return None
    except (ValueError, OverflowError, ZeroDivisionError, IndexError, TypeError):
        return None


def check_value(case, ctx):
    name, args = case[0], case[1:]
    want = expect(name, args)
    if want is None:
        ctx.count('not_judged')
        return None
    direct = call(name, [VALUES[i][0] for i in args])
    got = ask('($set r %s)%s' % (direct, SHOW), ctx)
    if got not in ['.' + w + '\n' for w in want]:
        raise Violation('wrong value\n%s\nexpected %r\ngot      %r' % (direct, want, got))
    names = ['v%d' % k for k in range(len(args))]
    pre = ''.join('($set %s %s)' % (n, VALUES[i][0]) for n, i in zip(names, args))
    keep = '|'.join('($set r %s)%s' % (n, SHOW) for n in names)
    c = call(name, names)
    got = ask('%s($set r %s)%s|($let r %s [%s])|%s' % (pre, c, SHOW, c, SHOW, keep), ctx)
    ok = ['.%s|%s|%s\n' % (w, w, '|'.join(shown(VALUES[i][1]) for i in args)) for w in want]
    if got not in ok:
        raise Violation('value through names, second call, or the arguments afterwards\n%s\nexpected %r\ngot      %r' % (c, ok[0], got))
    return name + want[0]


def first_args(name, skip):
    """The first admissible arguments of a function (after skipping some)."""
    lo, hi = int(str(TABLE[name][1])[0]), int(str(TABLE[name][1])[-1])
    for n in range(lo, hi + 1):
        for args in Words(range(len(VALUES)), n, n):
            if expect(name, args) is not None:
                if not skip:
                    return args
                skip -= 1
        if n >= 2:
            break
    return None


_first = {}


def rep(name, k):
    if (name, k) not in _first:
        _first[name, k] = first_args(name, k * 7)
    return _first[name, k] or rep(name, 0)


def check_pair(case, ctx):
    f, g, k = case
    a, b = rep(f, k), rep(g, 1 - k)
    wa, wb = expect(f, a), expect(g, b)
    ca, cb = call(f, [VALUES[i][0] for i in a]), call(g, [VALUES[i][0] for i in b])
    src = '%s,%s,%s,%s' % tuple('($set r %s)%s' % (c, SHOW) for c in (ca, cb, ca, cb))
    got = ask(src, ctx)
    if got not in ['.%s,%s,%s,%s\n' % (x, y, x, y) for x in wa for y in wb]:
        raise Violation('calls influence each other\n%s\nexpected %r\ngot      %r' % (src, (wa, wb), got))
    return wa[0] + wb[0]


def check_mutate(case, ctx):
    """A result or an argument that is emitted from does not change the other, nor what a later call returns."""
    name, args = case[0], case[1:]
    want = expect(name, args)
    if want is None:
        return None
    alts = TABLE[name][0](*[VALUES[i][1] for i in args])
    vals = [VALUES[i][1] for i in args]
    if not any(isinstance(v, list) for v in vals + [alts]):
        return None

    def rest(v, n):
        return v[n:] if isinstance(v, list) else v
    names = ['v%d' % k for k in range(len(args))]
    pre = ''.join('($set %s %s)' % (n, VALUES[i][0]) for n, i in zip(names, args))
    c = call(name, names)
    emits = ''.join('($emit %s)($emit %s)' % (n, n) for n in names)
    gone = ''.join(show_value(v[:2]) if isinstance(v, list) else show_value(v) * 2 for v in vals)
    show = ''.join('($set r %s)%s' % (n, SHOW) for n in names)
    res = rest(alts, 2)
    src = '%s($set a %s)($emit a)($emit a)|%s($set r %s)%s|%s|($set r a)%s' % (pre, c, show, c, SHOW, emits, SHOW)
    got = ask(src, ctx)
    ok = '.%s|%s%s|%s|%s\n' % (show_value(alts[:2]) if isinstance(alts, list) else show_value(alts) * 2,
                               ''.join(shown(v) for v in vals), shown(alts), gone, shown(res))
    if isinstance(alts, Alt):
        return None
    if got != ok:
        raise Violation('results and arguments are not independent\n%s\nexpected %r\ngot      %r' % (src, ok, got))
    return name + ok


def check_function(case, ctx):
    """The function passed as a value, mapped and used in a reduction."""
    name, how = case
    f, n = TABLE[name]
    n = int(str(n)[0])
    if how == 'loop' and n == 1:
        ids = [i for i in range(len(VALUES)) if expect(name, [i]) is not None]
        vals = [expect(name, [i])[0] for i in ids]
        if not ids or name in ('chr',):
            return None
        src = '($ (%s) %s \\r.[%s;])' % (' '.join(VALUES[i][0] for i in ids), name, SHOW)
        got = ask(src, ctx)
        alts = [expect(name, [i]) for i in ids]
        parts = got[1:-1].split(';')
        if len(parts) - 1 != len(ids) or any(p not in a for p, a in zip(parts, alts)):
            raise Violation('mapping a function\n%s\nexpected %r\ngot      %r' % (src, vals, got))
        return name + ''.join(vals)
    if how == 'passed':
        a = rep(name, 0)
        src = '($set g \\f.\\...($f *__va_args__))($set r ($g %s %s))%s' % (name, ' '.join('v%d' % k for k in range(len(a))), SHOW)
        if any(isinstance(VALUES[i][1], list) and not VALUES[i][1] for i in a) or name == 'translate':
            return None
        pre = ''.join('($set v%d %s)' % (k, VALUES[i][0]) for k, i in enumerate(a))
        got = ask(pre + src, ctx)
        if got not in ['.' + w + '\n' for w in expect(name, a)]:
            raise Violation('a function passed as an argument\n%s\nexpected %r\ngot      %r' % (src, expect(name, a), got))
        return name + got
    if how == 'reduce' and n == 2:
        for l in ([2, 5, 3], [1, 2], [0.5, 2.0, 2.0], ['b', 'cd'], [[1], [2, 3]]):
            def bin2(x, y):
                v = f(x, y)
                return v.v[1] if isinstance(v, Alt) else v
            try:
                want = alternatives(reduce(bin2, l))
            except (No, ValueError, ZeroDivisionError, TypeError, OverflowError):
                continue
            lit = ' '.join(str(x) if not isinstance(x, (str, list)) else '(`%s)' % x if isinstance(x, str) else
                           '(%s)' % ' '.join(map(str, x)) for x in l)
            src = '($set r ($reduce %s (%s)))%s' % (name, lit, SHOW)
            got = ask(src, ctx)
            if got not in ['.' + w + '\n' for w in want] and not isinstance(reduce(bin2, l), bool):
                raise Violation('reduction\n%s\nexpected %r\ngot      %r' % (src, want, got))
        return name
    return None


def check_const(case, ctx):
    name, with_call = case
    src = '($set r ($%s))%s' % (name, SHOW) if with_call else '[($%s)]' % name
    got = ask(src, ctx)
    want = '.' + (shown(CONST[name]) if with_call else '[%s]' % CONST[name]) + '\n'
    if got != want:
        raise Violation('constant\n%s\nexpected %r\ngot      %r' % (src, want, got))
    return got


FILES = ['a.yu-c', 'my-mod.yu-h', 'sub/Deep-er.name.yu-c', '/abs/x_1.yu-py', 'noext']


def check_file(case, ctx):
    fn, out, dt = case
    o = h.translate('.($__FILE__)|($__OUTPUT_FILE__)|($__MODULE_NAME__)', fn, out)
    want = '."%s"|"%s"|%s\n' % (os.path.basename(fn), os.path.basename(out), os.path.splitext(os.path.basename(fn))[0].upper().replace('-', '_'))
    if not o.ok or str(o.text) != want:
        raise Violation('file names\nexpected %r\ngot      %r' % (want, o.text))
    o = h.translate('($__TITLE__ %d)' % dt, fn, out)
    t = str(o.text)
    fn, out = os.path.basename(fn), os.path.basename(out)
    if not o.ok or fn not in t or out not in t or bool(re.search(r'\d\d:\d\d', t)) != bool(dt):
        raise Violation('title\n%r' % (o.text,))
    lead = '#' if out.endswith('.py') else '/*'
    if not t.startswith(lead):
        raise Violation('title is no comment of the language of %s\n%r' % (out, t))
    return want


def check_print(case, ctx):
    args = [('5', '5'), ('a', 'a'), ('"b c"', 'b c'), ("'\\n'", '\n'), ('(`q r)', 'q r')]
    src = '($print%s)' % ''.join(' ' + args[i][0] for i in case)
    with h.captured() as c:
        o = h.translate('.' + src + '.')
    want = ' '.join(args[i][1] for i in case)
    if not o.ok or str(o.text) != '..\n' or c.stdout != want:
        raise Violation('print\n%s\nexpected %r\ngot      %r %r' % (src, want, c.stdout, o.text))
    return want


def check_steady(case, ctx):
    src = ''.join(['a', '($SPACE)', '($TAB)', '\n', ' ', '($str SPACE)'[:0] or 'b'][i] for i in case)
    o = h.translate('.' + src + '.')
    want = None
    from c20 import clean
    want = clean('.' + src + '.').replace('($SPACE)', ' ').replace('($TAB)', '\t')
    if not o.ok or str(o.text) != want:
        raise Violation('steady characters\n%r\nexpected %r\ngot      %r' % (src, want, o.text))
    return want


CHARS = list(range(1, 0x180)) + [0x3b1, 0x416, 0x20ac, 0x1f600]
ONE = ['upper', 'lower', 'capitalize', 'swapcase', 'crc32', 'ord', 'strlen', 'isdigit', 'str', 'unq', 'q', 'qs', 'reversed', 'len']
WHITE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u2029'


def check_char(case, ctx):
    """Functions of a text made of one character, alone, doubled and among others."""
    n, form = case
    c = chr(n)
    val = {'chr': c, 'twice': c + c, 'mid': 'a' + c + 'b'}[form]
    arg = {'chr': '($chr %d)', 'twice': '($repeat ($chr %d) 2)', 'mid': '($replace (`aXb) (`X) ($chr %d))'}[form] % n
    res = []
    for name in ONE:
        if name not in TABLE and name != 'q':
            continue
        if c in WHITE and name not in ('crc32', 'ord', 'strlen', 'isdigit', 'q', 'qs', 'len'):
            continue
        o = h.translate('<($%s %s)>' % (name, arg))
        if name == 'unq' and c in '"\'\\':
            # -- what is not quoted has nothing to unquote; escapes in it are not documented
            continue
        if name in ('q', 'qs'):
            if c in '"\'':
                continue
            # -- the literal denotes the text
            got = str(o.text).rstrip('\n')[1:-1] if o.ok else ''
            mark = '"' if name == 'q' else "'"
            try:
                same = got[:1] == got[-1:] == mark and len(got) > 1 and ast.literal_eval(got) == val
            except (SyntaxError, ValueError):
                same = False
            if not same:
                raise Violation('($%s %s): the literal %r does not denote %r' % (name, arg, got, val))
        else:
            try:
                want = TABLE[name][0](val)
                want = [str(int(v) if isinstance(v, bool) else v) for v in (want.v if isinstance(want, Alt) else [want])]
            except (No, TypeError):
                continue
            got = str(o.text) if o.ok else None
            if got not in ['<' + w + '>\n' for w in want]:
                raise Violation('($%s %s) of %r\nexpected %r\ngot      %r' % (name, arg, val, want, got if o.ok else o.errors))
        res.append(got)
    return '|'.join(map(str, res))


def families(tier):
    t = tier == 'thorough'
    vals = range(len(VALUES))
    spaces = []
    for n in NAMES:
        for k in map(int, str(TABLE[n][1])):
            dom = vals if k < 3 else (SMALL if not t else vals) if k == 3 else SMALL if t else SMALL[::2]
            spaces.append(Prod([n], *[dom] * k))
    return [
        Family('values', Sum(*spaces), check_value, 'every function x every tuple of values'),
        Family('changed', Sum(*spaces), check_mutate, 'results and arguments changed by emits, called again'),
        Family('pairs', Prod(NAMES, NAMES, [0, 1]), check_pair, 'every ordered pair of functions'),
        Family('functions', Prod(NAMES, ['loop', 'passed', 'reduce']), check_function, 'functions as values'),
        Family('constants', Prod(sorted(CONST), [0, 1]), check_const, 'constants'),
        Family('files', Prod(FILES, ['o.c', 'out/o.h', 'x.py'], [0, 1]), check_file, 'names of files'),
        Family('print', Words(range(5), 3), check_print, 'print'),
        Family('characters', Prod(CHARS, ['chr', 'twice', 'mid']), check_char, 'functions of every character'),
        Family('steady', Words(range(6), 5 if t else 4), check_steady, 'steady white space'),
    ]
