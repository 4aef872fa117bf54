"""C08: emit delivers the current value and then advances it."""
from engine import Family, Prod, Sum, Words
import lang
import refeval as r

LEVEL = 'model_checking'
RULE = ('every history of emits up to a length over several variables, executed by the real code and by an iterator model; '
        'states = variable contents of the model met, transitions = statements executed; distinct = different results')
ASSUMPTIONS = ['emits are written in texts, lists and arguments, not inside a function body (whose emits are executed when '
               'the function is defined)']


def V(x):
    return ('var', x)


def N(x):
    return ('num', x)


def A(f, *args):
    return ('app', V(f) if isinstance(f, str) else f, list(args), [])


def L(*x):
    return ('list', list(x))


def E(v, f=None):
    return ('emit', v, f)


INIT = [
    ('set', 'l', L(N(1), V('x'), ('str', '"s"'), L(N(7), N(8)))),
    ('set', 'i', N(5)),
    ('set', 'k', L(N(1), N(2), N(3), N(4))),
    ('set', 'w', V('w0')),
    ('set', 'tw', ('lam', [('p', None)], ('infix', '[p] * 2'))),
]
SEP = ('txt', ';')
STMT = [
    E('l'), E('i', V('inc')), E('k', V('reversed')), E('k', V('cdr')), E('i'), E('w'),
    E('i', ('lam', [('q', None)], ('infix', 'q * 2'))), E('k', ('lam', [('z', None)], L(('emb', V('z')), N(9)))),
    ('set', 'l', V('k')), ('set', 'k', V('l')), ('set', 'm', V('k')), E('m'),
    A('list', E('k'), E('k'), E('l')), A('add', E('i', V('inc')), E('i', V('inc'))),
    A(L(N(1), E('k'), E('i', V('inc'))), ('lam', [('y', None)], L(V('y'), V('y')))),
    ('let', 'k', L(N(70), N(80)), ('text', [E('k'), E('k'), E('k'), E('l')])),
    A(('text', [('set', 'i', N(100)), E('i', V('dec')), E('i', V('dec')), E('k')])),
    A(('cond', E('k'), E('k'), E('l'))),
    ('set', 'i', E('k')), E('w', V('tw')), A('len', V('k')), A(('str', '"($0)-($1)"'), E('k'), E('i', V('inc'))),
    E('l', ('lam', [('u', None)], A('len', V('u')))), E('none'), ('set', 'i', N(3)),
    A(N(1), E('l'), E('k')), ('set', ['k', 'i'], L(V('l'), E('l'))), E('i', A('sub', N(3))),
    A(('text', [E('i', V('inc')), E('k'), E('k', V('reversed'))])), ('let', 'j', E('i', V('inc')), ('text', [
        E('i', V('inc')), A('j'), E('j', V('dec')), E('l'), A('j')])),
    ('let', 'j', E('k', V('reversed')), ('text', [E('k', V('cdr')), A('j')])),
    A(('text', [('set', 'j', E('l')), E('l', V('cdr')), A('j'), ('let', 'u', N(1), ('text', [E('k', V('reversed'))]))])),
]
SMALL = [0, 1, 2, 3, 7, 8, 10, 11]
SHOW = ('text', [('txt', '<'), A('l'), ('txt', ','), A('i'), ('txt', ','), A('k'), ('txt', ','), A('w'), ('txt', '>')])


def check(case, ctx):
    nodes = list(INIT)
    for i in case:
        nodes += [STMT[i], SEP]
    nodes += [SHOW]

    def see(node, env):
        ctx.state(r.state(env))
        ctx.count('transitions')

    r.TRACE = see
    try:
        return lang.agree(nodes, ctx)
    finally:
        r.TRACE = None


def families(tier):
    t = tier == 'thorough'
    full = range(len(STMT))
    return [
        Family('histories', Words(full, 4 if t else 3, 1), check, 'every history of the emits and assignments'),
        Family('long', Words(SMALL, 7 if t else 5, 4), check, 'longer histories of list emits, copies and appends'),
        Family('exhaust', Sum(*[Prod(*([[0, 2, 3, 4, 10, 11]] * k)) for k in range(5, 7 if t else 6)]), check,
               'histories that empty the lists'),
    ]
