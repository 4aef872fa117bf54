"""C05: assigned names keep their value and scope."""
from engine import Family, Map, Sum, Words, Prod
import lang
import refeval as r

LEVEL = 'model_checking'
RULE = ('every sequence of statements up to a length, executed by the real code and by a model of a lexically scoped store; '
        'states = environments of the model met, transitions = statements executed; distinct = different results')
ASSUMPTIONS = ['an assignment does not mention the name it assigns (the language defines it as a circular reference)',
               'a function body is bound to the values its free names have where it is defined']


def V(x):
    return ('var', x)


def N(x):
    return ('num', x)


def A(f, *args):
    return ('app', V(f) if isinstance(f, str) else f, list(args), [])


def L(*x):
    return ('list', list(x))


SHOW = ('text', [('txt', '<'), A('a'), ('txt', ','), A('b'), ('txt', '>')])
STMT = [
    ('set', 'a', N(1)),
    ('set', 'a', L(N(1), N(2), N(3))),
    ('set', 'b', V('a')),
    ('set', ['a', 'b'], L(N(4), L(N(5), N(6)))),
    ('emit', 'a', None),
    ('set', 'f', ('lam', [('p', None)], ('text', [('txt', '('), A('p'), A('a'), ('txt', ')')]))),
    A('f', V('b')),
    A(('text', [('set', 'a', N(9)), A('a'), A('b')])),
    ('let', 'a', N(8), ('text', [A('a'), A('b')])),
    ('emit', 'b', V('reversed')),
    SHOW,
    ('set', 'b', A('reversed', V('a'))),
    A(('lam', [('a', None)], ('text', [A('a'), ('set', 'b', N(7)), A('b')])), V('b')),
    ('set', 'b', ('emit', 'a', None)),
    ('set', ['b', 'c'], V('a')),
    A(V('b'), ('lam', [('q', None)], ('text', [('txt', '{'), A('q'), A('a'), ('txt', '}')]))),
    A(('infix', 'b.append(a)')),
    ('set', 'g', V('f')),
    A('g', V('a')),
    ('let', ['b', 'd'], L(V('a'), V('a')), ('text', [A('b'), ('emit', 'b', None), A('a'), A('d')])),
    ('set', 'b', L(V('a'), V('a'))),
    ('let', 'b', V('a'), ('text', [('emit', 'b', None), SHOW])),
    ('set', 'a', ('text', [('set', 'b', N(3)), A('b')])),
    ('set', ['a', 'c'], V('b')),
    ('set', ['c', 'b'], L(N(5))),
]
SMALL = [1, 2, 4, 5, 7, 9, 20, 23]


def check(case, ctx):
    nodes = [STMT[i] for i in case] + [SHOW]

    def see(node, env):
        ctx.state(r.state(env))
        ctx.count('transitions')

    r.TRACE = see
    try:
        return lang.agree(nodes, ctx)
    finally:
        r.TRACE = None


def families(tier):
    t = tier == 'thorough'
    full = range(len(STMT))
    return [
        Family('sequences', Words(full, 5 if t else 4), check, 'every sequence of the statements'),
        Family('long', Words(SMALL, 7 if t else 5, 4), check, 'longer sequences of the statements that interact most'),
        Family('after-setup', Sum(*[Prod([1, 3], [2, 11, 14, 20], *([full] * k)) for k in range(1, 4 if t else 3)]), check,
               'every continuation of a list assigned to two names'),
    ]
