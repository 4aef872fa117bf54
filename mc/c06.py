"""C06: lists, loops, conditionals, subscripts, formats and infix code evaluate as documented."""
from engine import Family, Prod, Sum, Violation
import lang
import refeval as r

LEVEL = 'exploration'
RULE = ('every expression built from the leaves by the constructs up to the stated nesting, evaluated by the real code and '
        'by the reference evaluator; distinct = different texts or failures')
ASSUMPTIONS = ['Python arithmetic and comparison are trusted: the reference evaluates infix code and operators in the same '
               'Python', 'negative subscripts below -len are not explored']


def V(x):
    return ('var', x)


def N(x):
    return ('num', x)


def A(f, *args, **kw):
    return ('app', V(f) if isinstance(f, str) else f, list(args), kw.get('named', []))


def L(*x):
    return ('list', list(x))


PRE = [
    ('set', 'l', L(N(3), N(4), N(5))),
    ('set', 'n', N(2)),
    ('set', 'z', L()),
    ('set', 'ff', ('lam', [('p', None)], ('text', [('txt', '<'), A('p'), ('txt', '>')]))),
    ('set', 'gg', ('lam', [('q', None)], ('infix', '[q, q]'))),
    ('set', 'hh', ('lam', [('s', None)], A(('cond', V('s'), V('s'), V('no'))))),
    ('set', 'kk', ('lam', [('t', None)], ('cond', V('t'), ('str', '"T"'), None))),
]
# -- a lambda body is an l-form; conditionals are wrapped
PRE[6] = ('set', 'kk', ('lam', [('t', None)], A(('cond', V('t'), ('str', '"T"'), None))))

LEAVES = [N(1), N(0), ('flt', 1.75), V('xx'), ('str', '"s"'), ('str', "'c'"), L(N(1), N(2)), L(), V('l'), V('n'), V('z'),
          ('txt', 't'), ('text', [('txt', 'u '), A('n')]), ('infix', 'n + 1'), ('infix', 'None'), ('infix', 'n == 2'),
          ('str', '""'), L(V('a'), L(V('b'), N(7)), V('c')), A('range', N(3)), N(-1), ('infix', '[i * i for i in range(3)]')]
FUN = [V('inc'), V('len'), V('ff'), V('gg'), V('hh'), V('kk'), V('reversed'), V('car'), V('not'),
       ('lam', [('v', None)], L(V('v'), N(9))), ('lam', [('w', None)], A(('cond', V('w'), V('w'), None)))]

# -- one construct around a hole
CONTEXTS = [
    lambda e: A('inc', e), lambda e: A('len', e), lambda e: A('ff', e), lambda e: A('gg', e), lambda e: A('hh', e),
    lambda e: A('kk', e), lambda e: A('reversed', e), lambda e: A('cdr', e),
    lambda e: A('add', e, L(N(1), N(2))), lambda e: A('add', N(1), e), lambda e: A('mul', e, N(2)),
    lambda e: A('eq', e, N(1)), lambda e: A('not', e),
    lambda e: ('cond', e, V('yes'), V('no')), lambda e: ('cond', e, N(1), None), lambda e: ('cond', N(1), e, V('no')),
    lambda e: ('cond', N(0), V('yes'), e), lambda e: ('cond', N(0), e, None), lambda e: ('cond', L(), V('yes'), e),
    lambda e: ('cond', e, e, e),
    lambda e: L(e), lambda e: L(N(1), e, V('xx')), lambda e: L(('emb', e)), lambda e: L(('emb', e), N(2)),
    lambda e: L(N(8), ('emb', e), ('emb', e)),
    lambda e: A(N(0), e), lambda e: A(N(1), e), lambda e: A(N(1), V('xx'), e), lambda e: A(N(2), V('xx'), e, N(6)),
    lambda e: A(N(1), ('emb', e), N(6)), lambda e: A(N(5), e), lambda e: A(N(-1), e, N(6)), lambda e: A(N(0), e, e),
    lambda e: A(e, V('l')), lambda e: A(e), lambda e: A(e, V('inc')), lambda e: A(e, V('ff'), V('ff')),
    lambda e: A(e, V('gg'), V('len')), lambda e: A(e, V('hh')), lambda e: A(V('l'), e), lambda e: A(V('z'), e),
    lambda e: A(e, V('kk'), V('ff')), lambda e: A(e, ('lam', [('y', None)], ('text', [A('y'), ('txt', ';')]))),
    lambda e: A(('str', '"a($0)b($k)c($0)"'), e, named=[('k', e)]), lambda e: A(('str', '"($1)($0)"'), e, N(6)),
    lambda e: A(('str', '"($0)"'), ('emb', e)), lambda e: A(e, N(6), named=[('k', N(5))]),
    lambda e: ('let', 'x', e, V('x')), lambda e: ('let', 'x', e, L(V('x'), V('x'))),
    lambda e: ('let', 'x', e, ('infix', 'x')), lambda e: ('let', 'x', e, ('infix', '[x, x]')),
    lambda e: ('let', 'x', e, ('infix', 'x * n')), lambda e: ('let', 'x', e, ('infix', '(x, 1)[0] if x else 5')),
    lambda e: ('let', ['x', 'y'], e, L(V('y'), ('txt', ','), V('x'))),
    lambda e: ('text', [('txt', '<'), A(e), ('txt', '>')]), lambda e: ('text', [('set', 'x', e), A('x'), A('x')]),
    lambda e: A('ff', A('ff', e)), lambda e: A(('lam', [('x', e)], A('x'))),
    lambda e: A(('lam', [('x', None), ('...', None)], ('text', [A('x'), ('txt', ':'), A('__va_args__')])), N(1), e),
    lambda e: A(('lam', [('...', None)], A('len', V('__va_args__'))), e, ('emb', e)),
]


def deep(ks, leaf):
    e = LEAVES[leaf]
    for k in ks:
        e = CONTEXTS[k](e)
    return e


def top(e):
    if e[0] in ('app', 'let'):
        return e
    return A(e)


def check_expr(case, ctx):
    ks, leaf = case[:-1], case[-1]
    return lang.agree(PRE + [top(deep(ks, leaf))], ctx)


def check_loop(case, ctx):
    src, fns = LEAVES[case[0]], [FUN[i] for i in case[1:]]
    return lang.agree(PRE + [('app', src, fns, [])], ctx)


def check_fun(case, ctx):
    fn, args = case[0], [LEAVES[i] for i in case[1:]]
    return lang.agree(PRE + [('app', FUN[fn] if fn < len(FUN) else LEAVES[fn - len(FUN)], args, [])], ctx)


def check_cond(case, ctx):
    a, b, c, lazy = case
    # -- branches not taken must not be evaluated: the poison fails when it is
    poison = A('div', N(1), N(0))
    la, lb, lc = LEAVES[a], LEAVES[b] if b >= 0 else poison, LEAVES[c] if c >= 0 else poison
    e = ('cond', la, lb, lc)
    if lazy == 1:
        e = A(('lam', [('p', None)], A(('cond', V('p'), lb, lc))), la)
    elif lazy == 2:
        e = A(L(la), ('lam', [('p', None)], A(('cond', V('p'), lb, lc))))
    if lazy and la == ('infix', 'None'):
        return None
    try:
        return lang.agree(PRE + [top(e)], ctx)
    except Violation as v:
        if lazy == 2 and -1 in (b, c) and 'translation fails' in v.message and 'division by zero' in v.message:
            v.key = 'untaken-branch-in-argument-lambda'
        raise


def families(tier):
    t = tier == 'thorough'
    nl, nc, nf = range(len(LEAVES)), range(len(CONTEXTS)), range(len(FUN))
    out = [Family('nested-%d' % k, Prod(*([nc] * k + [nl])), check_expr, 'expressions of %d nested constructs' % k)
           for k in range(0, 4 if t else 3)]
    if not t:
        few = [0, 3, 8, 10, 13]
        pick = [i for i in nc if i % 2 == 0]
        out.append(Family('nested-3', Prod(pick[::2], pick, [i for i in nc if i % 4 == 1], few), check_expr,
                          'every second construct, three deep'))
    out.append(Family('loops', Sum(Prod(nl, nf), Prod(nl, nf, nf), *([Prod(nl, nf, nf, nf)] if t else [])), check_loop,
                      'for-each pipelines'))
    out.append(Family('subscripts', Sum(*[Prod([len(FUN) + i for i in nl], *([nl] * k))
                                          for k in range(0, 4 if t else 3)]), check_fun,
                      'every value applied to every arguments'))
    out.append(Family('calls', Sum(*[Prod(nf, *([nl] * k)) for k in range(0, 3)]), check_fun, 'functions of two values'))
    both = list(nl) + [-1]
    out.append(Family('branches', Prod(nl, both, both, [0, 1, 2]), check_cond,
                      'conditionals with branches that fail when evaluated'))
    return out
