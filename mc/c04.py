"""C04: function application binds arguments as documented."""
from engine import Family, Map, Prod, Sum, Words
import lang

LEVEL = 'exploration'
RULE = ('every function shape applied to every arrangement of arguments up to the bounds, against an independent binder; '
        'distinct = different texts or failures')
ASSUMPTIONS = ['parameters of different functions have different names where an argument is itself a function '
               '(the implementation documents its scoping of partially applied inner functions as experimental)']

NAMES = ['a', 'b', 'c', 'd']
VALUES = [('num', 1), ('var', 'xx'), ('str', '"s"'), ('list', [('num', 7), ('num', 8)]), ('txt', 't u'), ('flt', 2.5),
          ('num', -3)]
DEFAULTS = [('num', 90), ('var', 'dd'), ('str', "'q'"), ('list', [('num', 91), ('num', 92)])]


def show(names):
    out = [('txt', '<')]
    for i, n in enumerate(names):
        if i:
            out.append(('txt', '|'))
        out.append(('app', ('var', n), [], []))
    return ('text', out + [('txt', '>')])


def function(shape):
    """shape: [n, bit mask of defaults, variadic (0: none, 1: last, k: before the parameter k - 1 from the end)]"""
    n, mask, va = shape
    pars = [(NAMES[i], DEFAULTS[i] if mask >> i & 1 else None) for i in range(n)]
    names = NAMES[:n]
    if va:
        at = len(pars) - va + 1
        pars.insert(at, ('...', None))
        names = names[:at] + ['__va_args__'] + names[at:]
    return ('lam', pars, show(names))


def items_of(word, start=0):
    """word: items 'P', 'a'.. (named), 'z' (no such), '*0'.. embedded lists; values distinct by position."""
    args, named = [], []
    for i, w in enumerate(word):
        v = VALUES[(start + i) % len(VALUES)]
        if w == 'P':
            args.append(v)
        elif w == '*l':
            args.append(('emb', ('var', 'l')))
        elif w == '*v':
            args.append(('emb', v))
        elif w == '*r':
            args.append(('emb', ('app', ('var', 'range'), [('num', 2)], [])))
        elif w[0] == '*':
            args.append(('emb', ('list', [('num', 50 + k) for k in range(int(w[1:]))])))
        else:
            named.append((w, v))
    return args, named


def groups(word, mask):
    """The word cut into successive applications where the mask has a bit."""
    out = [[]]
    for i, w in enumerate(word):
        if i and mask >> (i - 1) & 1:
            out.append([])
        out[-1].append(w)
    return out


LIST = ('set', 'l', ('list', [('num', 60), ('var', 'm'), ('num', 61)]))


def check(case, ctx):
    shape, word, mask, how = case
    f = function(shape)
    pre = [LIST]
    if how == 'name':
        pre.append(('set', 'f', f))
        e = ('var', 'f')
    elif how == 'inline':
        e = f
    elif how == 'returned':
        pre.append(('set', 'mk', ('lam', [('u', None)], f)))
        e = ('app', ('var', 'mk'), [('num', 0)], [])
    elif how == 'listed':
        pre.append(('set', 'fs', ('list', [('num', 5), f])))
        e = ('app', ('num', 1), [('var', 'fs')], [])
        # -- subscripting needs a finished list; a list with a function in it is not one
    elif how == 'let':
        pre.append(('set', 'g', f))
        e = ('let', 'f', ('var', 'g'), ('var', 'f'))
    else:
        pre.append(('set', 'f', f))
        pre.append(('set', 'g', ('var', 'f')))
        e = ('var', 'g')
    at = 0
    for g in groups(word, mask):
        args, named = items_of(g, at)
        at += len(g)
        e = ('app', e, args, named)
    nodes = pre + [e]
    if how == 'twice':
        nodes += [('txt', ';'), e, ('txt', ';'), ('app', ('var', 'f'), [v for v in VALUES[:4]], [])]
    return lang.agree(nodes, ctx)


SDEF = [('var', 'm'), ('app', ('var', 'add'), [('var', 'm'), ('num', 1)], []), ('var', 'a'),
        ('list', [('var', 'b'), ('var', 'm')]), ('infix', 'm * 10')]
SARG = [('num', 1), ('var', 'a'), ('var', 'b'), ('var', 'm'), ('app', ('var', 'add'), [('var', 'b'), ('num', 1)], []),
        ('list', [('var', 'a'), ('var', 'm')]), ('infix', 'a + m')]


def check_scope(case, ctx):
    """Arguments and defaults that are names: of the caller, of the definition, the same as those of parameters."""
    d1, d2, va, word, site = case
    pars = [('a', None if d1 is None else SDEF[d1]), ('b', None if d2 is None else SDEF[d2])] + [('...', None)] * va
    body = ('text', show(['a', 'b', 'm'] + ['__va_args__'] * va)[1] + [('txt', 'x')])
    args, named = [], []
    for w, v in word:
        if w == 'P':
            args.append(SARG[v])
        else:
            named.append((w, SARG[v]))
    call = ('app', ('var', 'f'), args, named)
    pre = [('set', 'a', ('num', 11)), ('set', 'b', ('num', 12)), ('set', 'm', ('num', 3)), ('set', 'f', ('lam', pars, body))]
    if site == 0:
        tail = [('set', 'm', ('num', 4)), call]
    elif site == 1:
        tail = [('let', 'm', ('num', 5), ('text', [('set', 'a', ('num', 6)), call])), call]
    elif site == 2:
        tail = [('set', ['b', 'a'], ('list', [('num', 7), ('num', 8)])), ('app', ('app', ('var', 'f'), args[:1], []), args[1:], named)]
    else:
        tail = [('app', ('lam', [('m', None)], ('text', [call])), [('num', 9)], []), call]
    return lang.agree(pre + tail + [('app', ('var', 'a'), [], []), ('app', ('var', 'm'), [], [])], ctx)


def shapes(lo, hi):
    return [[n, m, v] for n in range(lo, hi + 1) for m in range(1 << n) for v in (0, 1) if n or v]


def families(tier):
    t = tier == 'thorough'
    pn = ['P', 'a', 'b', 'c', 'z']
    out = []
    m = 5 if t else 4
    out.append(Family('arrangements', Sum(*[
        Map(lambda c: [c[0], c[1], 0, 'name'], Prod(shapes(0, 3), Words(pn, k, k))) for k in range(m + 1)]), check,
        'every shape of 0..3 parameters x every arrangement of positional and named arguments'))
    out.append(Family('curried', Sum(*[
        Map(lambda c: [c[0], c[1], c[2], 'name'], Prod(shapes(1, 3), Words(['P', 'a', 'b', 'c'], k, k),
                                                     range(1, 1 << (k - 1)))) for k in range(2, m + 1)]), check,
        'the same arguments cut into successive applications in every way'))
    emb = ['P', '*0', '*1', '*2', '*l', '*v', '*r', 'b']
    out.append(Family('embedded', Sum(*[
        Map(lambda c: [c[0], c[1], 0, 'name'], Prod(shapes(0, 3), Words(emb, k, k))) for k in range(1, m)]), check,
        'embedded lists among the arguments'))
    out.append(Family('variadic-first', Sum(*[
        Map(lambda c: [c[0], c[1], c[2], 'name'], Prod([[n, m, v] for n in (1, 2, 3) for m in range(1 << n)
                                                        for v in range(2, n + 2)],
                                                       Words(['P', 'a', 'b', 'c', '*2'], k, k), [0, 1, 2])) for k in range(m)]),
        check, 'the variadic parameter before others'))
    word = Sum(*[Prod(*[Prod(['P', 'a', 'b'], range(len(SARG)))] * k) for k in range(4 if t else 3)])
    out.append(Family('scopes', Prod([None] + list(range(len(SDEF))), [None] + list(range(len(SDEF))), [0, 1], word, [0, 1, 2, 3]),
                      check_scope, 'arguments and defaults made of names that are also parameters or assigned again'))
    out.append(Family('four', Map(lambda c: [c[0], c[1], c[2], 'name'],
                                  Prod(shapes(4, 4), Words(['P', 'a', 'd', '*2'], 5 if t else 4), [0, 1, 2])), check,
                      'four parameters'))
    out.append(Family('callee', Map(lambda c: [c[0], c[1], c[2], c[3]],
                                    Prod(shapes(0, 2), Words(['P', 'a', 'b', '*2'], 4 if t else 3), [0, 1],
                                         ['inline', 'returned', 'let', 'alias', 'twice'])), check,
                      'other ways to denote the function; applied twice'))
    return out
