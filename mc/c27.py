"""C27: late-bound parameters and lazy values are resolved where documented."""
import os
import subprocess
import sys

from engine import Family, Map, Prod, Sum, Violation, Words
import lang

LEVEL = 'exploration'
RULE = ('every function with late parameters x every argument expression up to a size over late, free and bound names x every place of the '
        'call, against a reference evaluator in which such an argument is a function of the late names; the same for lazily passed '
        'lists and for expressions that wait for a parameter; distinct = different texts or failures')
ASSUMPTIONS = ['an argument is evaluated as far as its late names allow before the call: one that fails without them fails whether it is used or not',
               'a lazily passed function that is never applied has no text']

N = lambda x: ('num', x)
V = lambda x: ('var', x)
L = lambda x: ('late', x)


def A(f, *a, **k):
    return ('app', f if isinstance(f, tuple) else V(f), list(a), list(k.get('named', [])))


def T(*x):
    """A text."""
    return ('text', [('txt', y) if isinstance(y, str) else y for y in x])


def lam(pars, body):
    if body[0] not in ('app', 'list', 'infix', 'let', 'text', 'lam'):
        body = T(use(body))         # not a form
    return ('lam', [(p, None) if isinstance(p, str) else tuple(p) for p in pars], body)


S = lambda n, v: ('set', n, v)


def use(x):
    """A value as a part of a text."""
    return A(x) if x[0] in ('var', 'late') else x


# -- functions that receive f (late name a, sometimes b) and what they do with it
RECEIVERS = {
    'one': (lam(['a..f'], A('f', N(1))), []),
    'val': (lam(['a..f', 'v'], A('f', V('v'))), [N(2)]),
    'twice': (lam(['a..f', 'v'], T(A('f', V('v')), '-', A('f', A('inc', V('v'))))), [N(3)]),
    'inlet': (lam(['a..f', 'v'], ('let', 'v', N(4), A('f', V('v')))), [N(5)]),
    'ownlet': (lam(['a..f'], ('let', 'a', N(99), A('f', N(1)))), []),
    'ownset': (lam(['a..f', 'v'], T(S('v', N(4)), S('a', N(98)), A('f', V('v')), '.')), [N(6)]),
    'named': (lam(['a..f', 'v'], A('f', named=[('a', V('v'))])), [N(7)]),
    'first': (lam(['v', 'a..f'], A('f', V('v'))), None),
    'loop': (lam(['a..f'], A(('list', [N(1), N(2)]), V('f'))), []),
    'loop2': (lam(['a..f'], A(('list', [N(1), N(2)]), lam(['i'], T(A('f', V('i')), ';')))), []),
    'none': (lam(['a..f'], T('x', A('f'))), []),
    'unused': (lam(['a..f'], T('x')), []),
    'pass': (lam(['a..f'], A(lam(['a..h'], A('h', N(5))), A('f', L('a')))), []),
    'pass2': (lam(['a..f'], A(lam(['b..h'], A('h', N(5))), A('f', L('b')))), []),
    'plainpass': (lam(['a..f'], A(lam(['h'], A('h', N(5))), V('f'))), []),
    'own': (lam(['a..f', 'a'], A('f', V('a'))), [N(8)]),
    'own1': (lam(['a', 'a..f'], A('f', A('inc', V('a')))), None),
    'fun': (lam(['a..f'], A('f', lam(['z'], A('mul', V('z'), N(2))))), []),
    'lst': (lam(['a..f'], A('f', ('list', [N(3), N(4)]))), []),
    'txt': (lam(['a..f'], T(A('f', ('txt', 'u w')))), []),
    'cond': (lam(['a..f', 'v'], ('cond', V('v'), A('f', V('v')), A('f', N(0)))), [N(1)]),
    'cond0': (lam(['a..f', 'v'], ('cond', V('v'), A('f', N(1)), A('f', V('v')))), [N(0)]),
    'default': (lam([('a..f', A('inc', L('a')))], A('f', N(1))), []),
    'more': (lam(['a..f'], A('f', N(1), N(2))), []),
    'two': (lam(['a..b..f', 'v'], A('f', V('v'), N(2))), [N(9)]),
    'two-named': (lam(['a..b..f', 'v'], A('f', named=[('b', V('v')), ('a', N(3))])), [N(9)]),
    'two-part': (lam(['a..b..f', 'v'], ('let', 'g', A('f', V('v')), T(A('g', N(1)), A('g', N(2))))), [N(9)]),
    'two-order': (lam(['b..a..f', 'v'], A('f', V('v'), N(2))), [N(9)]),
    'both': (lam(['a..f', 'b..g'], T(A('f', N(1)), ',', A('g', N(2)))), None),
    'nest': (lam(['a..f', 'v'], A(lam(['w'], A('f', V('w'))), V('v'))), [N(2)]),
    'hyphen': (lam(['p-a..f', 'v'], A('f', V('v'))), [N(2)]),
    'hyphen2': (lam(['p-a..a..f', 'v'], A('f', V('v'), N(7))), [N(2)]),
}

ATOMS = [L('a'), L('b'), N(1), V('a'), V('v'), V('k'), V('p-a')]
LATE = [L('a'), L('b'), V('p-a')]


def one(x, y):
    """Expressions over two operands."""
    return [
        A('add', x, y), T('<', use(x), '|', use(y), '>'), ('list', [x, ('txt', ' '), y]), A('str', A('add', x, y)), A(('list', [x, y]), lam(['i'], T(use(V('i')), ';'))),
        ('cond', x, y, N(5)), ('cond', y, N(6), x), ('let', 'k', x, A('add', V('k'), y)), ('let', 'a', y, A('add', V('a'), x)), A(N(1), x, y), A(lam(['q'], A('add', V('q'), y)), x), A(lam(['a'], A('add', V('a'), y)), x),
        A(lam(['a'], A('add', L('a'), x)), y), A(lam(['q', 'a'], A('sub', V('q'), V('a'))), x, named=[('a', y)]), A(('str', '"($0)/($1)"'), x, y), A(lam(['a..h'], A('h', N(6))), A('add', L('a'), x)),
        A(lam(['a..h'], A('h', y)), A('mul', L('a'), x)), A(lam(['b..h', 'z'], A('h', V('z'))), A('sub', L('b'), x), y), A(lam(['...'], T(use(V('__va_args__')))), x, y), ('list', [x, ('emb', ('list', [y, x]))]),
        A('len', ('list', [x, y])), T(S('k', x), A('add', V('k'), y)), T(S('a', x), use(L('a')), use(V('a')), use(y)), A(lam(['g'], A('g', x, y)), V('sub')),
        A(lam(['q'], ('let', 'a', V('q'), T(use(V('a')), use(y)))), x), lam(['q'], A('add', V('q'), x)), A(('list', [N(1), N(2)]), lam(['a'], T(A('add', V('a'), x), use(L('a')), ','))),
    ]


ARGS = [x for x in ATOMS]
for _x in ATOMS:
    for _y in ATOMS:
        ARGS += one(_x, _y)
# -- where the call is
PLACES = {
    'plain': lambda c: [c], 'set': lambda c: [S('a', N(20)), S('v', N(30)), S('k', N(40)), c], 'seth': lambda c: [S('p-a', N(50)), c], 'let': lambda c: [('let', 'a', N(21), c)], 'fun': lambda c: [A(lam(['a'], T(c)), N(22))],
    'fun2': lambda c: [S('g', lam(['a', 'v'], T('(', c, ')'))), A('g', N(23), N(24))], 'late': lambda c: [A(lam(['a..h'], T(A('h', N(25)), A('h', N(26)))), T(c))], 'loop': lambda c: [A(('list', [N(1), N(2)]), lam(['k'], T(c, ' ')))],
    'fork': lambda c: [A(lam(['k', 'v'], ('cond', V('k'), T(c), N(0))), N(1), N(31))], 'part': lambda c: [S('g', lam(['a', 'k'], T(c))), A(A('g', N(27)), N(28))], 'setd': lambda c: [S('a', N(20)), S('b', N(19)), c, '-', c],
    'default': lambda c: [A(lam([('a', N(29)), ('v', c)], T(use(V('a')), ':', use(V('v')))))], 'named': lambda c: [A(lam(['q', 'k'], T(use(V('q')), use(V('k')))), N(1), named=[('k', c)])],
}


def call(recv, arg, how):
    """A call of the receiver; how: in place, through a name, its argument through a name."""
    fn, rest = RECEIVERS[recv]
    if rest is None:
        args = [N(11), arg] if recv in ('first', 'own1') else [arg, arg]
    else:
        args = [arg] + rest
    if how == 1:
        return [S('recv', fn)], A('recv', *args)
    if how == 2:
        return [S('expr', arg)], A(fn, *[V('expr') if x is arg else x for x in args])
    if how == 3:
        # -- by name
        if 'f' in (fn[1][0][0].split('..')[-1],):
            return [], A(fn, *args[1:], named=[('f', arg)])
        return [], A(fn, *args)
    if how == 4 and len(args) > 1:
        # -- one argument after the other
        return [S('part', A(fn, args[0]))], A('part', *args[1:])
    return [], A(fn, *args)


# -- parameters that have no value yet when the call is evaluated first
OPEN = {'fun': {'a'}, 'fun2': {'a', 'v'}, 'loop': {'k'}, 'fork': {'k', 'v'}, 'part': {'a', 'k'}, 'named': {'q', 'k'}, 'late': set(), 'default': set()}


def names(node, kind):
    """Names used in a node."""
    if isinstance(node, tuple) and len(node) == 2 and node[0] == kind and isinstance(node[1], str):
        return {node[1]}
    return set().union(*[names(x, kind) for x in node]) if isinstance(node, (tuple, list)) else set()


def binders(node):
    """Names given a meaning anywhere inside."""
    out = set()
    if isinstance(node, (tuple, list)):
        if node and node[0] == 'lam':
            out = {p.split('..')[-1] for p, _ in node[1]}
        elif node and node[0] in ('let', 'set') and len(node) > 2:
            out = {node[1]} if isinstance(node[1], str) else set(node[1])
        for x in node:
            out |= binders(x)
    return out


def circular(node):
    """A name given a value that mentions the name."""
    if isinstance(node, (tuple, list)):
        if node and node[0] in ('let', 'set') and len(node) > 2 and binders(node[:2] + (None,)) & names(node[2], 'var'):
            return True
        return any(circular(x) for x in node)
    return False


def late(case, ctx):
    recv, arg, place, how = case
    head, c = call(recv, ARGS[arg], how)
    if OPEN.get(place, set()) & names(ARGS[arg], 'var') & binders((c, head)) or place in OPEN and recv == 'more':
        ctx.count('captured')       # a known finding, or a text applied while open
        return None
    if how == 2 and any(x[0] == 'cond' for x in (ARGS[arg],)) and names(ARGS[arg], 'var'):
        ctx.count('branches')       # a known finding
        return None
    if circular(ARGS[arg]) or recv == 'own' and 'a' in binders(ARGS[arg]):
        ctx.count('circular')
        return None
    if how == 2:
        head = [S('a', N(60)), S('v', N(61)), S('k', N(62))] + head
    nodes = head + PLACES[place](c)
    return lang.agree([('txt', n) if isinstance(n, str) else n for n in nodes], ctx)


# --------------------------------------------------------------------------- lazily passed
ITEMS = [N(3), lam(['x'], A('add', V('x'), N(10))), lam(['x'], T('<', use(V('x')), '>')), ('txt', 't'), V('m'), ('list', [N(1), N(2)]), lam(['x', 'y'], A('sub', V('x'), V('y'))), V('inc'), V('g')]
LAZY = ('lazy', V('__va_args__'))
WAYS = {
    'len': A('len', LAZY), 'at0': A(A(N(0), LAZY), V('v')), 'at1': A(A(N(1), LAZY), V('v')), 'at': A(A('i', LAZY), V('v')), 'loop': A(LAZY, lam(['f'], T(A('f', V('v')), ';'))), 'value': A(A(N(1), LAZY)),
    'fork': ('cond', A('lt', V('i'), A('len', LAZY)), A(A('i', LAZY), V('v')), N(77)), 'let': ('let', 'h', A('i', LAZY), A('h', V('v'))), 'let2': ('let', 'h', LAZY, A(A('i', V('h')), V('v'))), 'infix': A('sub', A('len', LAZY), N(1)),
    'part': A(A(A('i', LAZY), V('v')), N(1)), 'twice': T(A(A('i', LAZY), V('v')), A(A('i', LAZY), A('inc', V('v')))), 'last': A(A(A('sub', A('len', LAZY), N(1)), LAZY), V('v')), 'loop2': A(LAZY, lam(['f'], T(A('f', V('v'), N(1)), ';'))),
}


def lazy(case, ctx):
    items, way, i, place = case
    body = WAYS[way]
    fn = lam(['v', 'i', '...'], body)
    c = A(fn, N(5), N(i), *[ITEMS[x] for x in items])
    head = [S('m', N(8)), S('g', lam(['x'], A('mul', V('x'), V('m'))))]
    nodes = head + {'plain': [c], 'fun': [A(lam(['m'], T(c)), N(9))], 'name': [S('va', fn), A('va', N(5), N(i), *[ITEMS[x] for x in items])], 'let': [('let', 'v', N(6), c)]}[place]
    return lang.agree(nodes, ctx)


# --------------------------------------------------------------------------- postponed
def over(x, y):
    """Expressions over two names of parameters, none of which fails."""
    return [
        A('add', x, y), T(use(x), '|', use(y)), A(('list', [x, y]), lam(['i'], A('inc', V('i')))), ('cond', x, y, N(9)), ('let', 'q', A('inc', x), A('add', V('q'), y)), A(lam(['q'], A('sub', V('q'), y)), x), ('infix', '%s * 10 + %s' % (x[1], y[1])),
        A(N(1), x, y), A(A(lam(['q', 'w'], A('sub', V('q'), V('w'))), x), y), T(S('q', A('add', x, y)), use(V('q')), use(x)), A(lam(['...'], A('len', V('__va_args__'))), x, y), A(('str', '"($0)($1)"'), x, y),
        A(lam([('q', x), ('w', y)], T(use(V('q')), use(V('w'))))), A(('list', [N(1), N(2)]), lam(['q'], A('add', A('mul', V('q'), x), y))), A('len', ('list', [x, y])), A(x, ('list', [N(4), y] + [N(k) for k in range(11, 19)])), A(A('range', x), lam(['q'], T(A('add', V('q'), y), ','))),
        A(lam(['q'], lam(['w'], A('add', A('add', V('q'), V('w')), x))), y, N(1)), ('list', [('emb', ('list', [x, y])), x]), ('let', ('q', 'w'), ('list', [y, x]), A('sub', V('q'), V('w'))), A(('cond', x, V('inc'), V('dec')), y),
    ]


NAMES = [V('x'), V('y')]
SIMPLE = [e for x in NAMES for y in NAMES for e in over(x, y)]


def nested(i, j):
    """An expression whose second operand is another, bound to a name."""
    return ('let', 'r', SIMPLE[i], over(V('x'), V('r'))[j])


USES = {
    'call': lambda f: [A(f, N(1), N(2))], 'part': lambda f: [S('f', f), S('g', A('f', N(1))), T(A('g', N(2)), ' ', A('g', N(3)))], 'named': lambda f: [A(f, named=[('y', N(2)), ('x', N(1))])], 'zero': lambda f: [A(f, N(0), N(0))],
    'inner': lambda f: [S('f', f), A(lam(['z'], A('f', V('z'), N(2))), N(1))], 'loop': lambda f: [S('f', f), A(('list', [N(1), N(0)]), lam(['z'], T(A('f', V('z'), N(1)), ';')))], 'loop2': lambda f: [A(('list', [N(1), N(2)]), A(f, N(1)))],
    'open': lambda f: [S('f', f), S('h', lam(['z', 'w'], A('f', V('w'), V('z')))), A(A('h', N(1)), N(2))], 'set': lambda f: [S('x', N(7)), S('y', N(8)), A(f, V('y'), V('x'))], 'shadow': lambda f: [S('f', f), ('let', 'x', N(3), A('f', N(1), V('x')))],
    'arg': lambda f: [A(lam(['k'], A('k', N(2))), A(f, N(1)))], 'fork': lambda f: [S('f', f), A(lam(['z'], ('cond', V('z'), A('f', V('z'), N(1)), N(4))), N(1))],
}


def postponed(case, ctx):
    body, use_ = case
    if not isinstance(body, int) and over(V('x'), V('r'))[body[1]][0] == 'cond':
        ctx.count('branches')       # a known finding
        return None
    b = SIMPLE[body] if isinstance(body, int) else nested(*body)
    return lang.agree(USES[use_](lam(['x', 'y'], b)), ctx)


# --------------------------------------------------------------------------- known findings
KNOWN = [
    ('($set f \\w.\\v.($add w v))($set g \\v.($f v 10))($g 1)', '11', 'open-argument-captured'),
    ('($set a 60)($set f \\c.[($ a ? c | 5)])($set a 20)($f 1)', '60', 'names-of-postponed-branches'),
    ('($set f \\x.($let q 7 q ? x | 9))($f 5)', '7', 'postponed-branches-lose-let'),
    ('($set fact \\n.($ ($mul n ($fact ($dec n))) ? n | 1))($set g \\m.($fact m))($g 3)', '6', 'recursive-function-of-open-argument'),
]
CODE = 'import sys; sys.path.insert(0, %r); import harness as h; h.install(); o = h.translate(%r); print(repr(str(o.text)) if o.ok else o.errors)'


def known(case, ctx):
    """Programs of the known findings; in a process of their own, since one of them overflows the stack."""
    text, want, key = KNOWN[case]
    try:
        p = subprocess.run([sys.executable, '-c', CODE % (os.path.dirname(os.path.abspath(__file__)), '.' + text)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.dir(), timeout=12)
        got = p.stdout.decode('utf8', 'replace').strip() or 'status %d' % p.returncode
    except subprocess.TimeoutExpired:
        got = 'no result (the stack overflows in the end)'
    if got != repr('.%s\n' % want):
        raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %s' % (text, want, got), key=key)
    return want


def families(tier):
    t = tier == 'thorough'
    places, recvs = sorted(PLACES), sorted(RECEIVERS)
    small = list(range(len(ATOMS))) + [len(ATOMS) + i for i in range(0, len(ARGS) - len(ATOMS))]
    per = len(one(N(1), N(1)))

    def only(pairs):
        k = {(x, y): n for n, (x, y) in enumerate((x, y) for x in range(len(ATOMS)) for y in range(len(ATOMS)))}
        return [len(ATOMS) + k[p] * per + i for p in pairs for i in range(per)]
    few = only([(0, 2), (2, 0), (0, 3), (0, 4), (6, 2), (0, 1), (0, 5)])
    return [
        Family('known', range(len(KNOWN)), known, 'programs of the known findings', chunk=1),
        Family('late', Prod(recvs, small if t else few + list(range(len(ATOMS))), places, [0]), late, 'every function with late parameters, every argument, everywhere'),
        Family('calls', Prod(recvs, few, ['plain', 'set', 'fun2', 'late'], [1, 2, 3, 4]), late, 'every way to call'),
        Family('arguments', Prod(['val', 'two', 'both', 'hyphen2', 'pass'], small, ['plain', 'set', 'fun2'] if not t else places, [0]), late, 'every argument'),
        Family('lazy', Prod(Map(list, Words(range(len(ITEMS)), 4 if t else 3)), sorted(WAYS), [0, 1, 2], ['plain', 'fun', 'name', 'let'] if t else ['plain', 'fun']), lazy, 'lazily passed lists'),
        Family('postponed', Prod(Sum(range(len(SIMPLE)), Map(list, Prod(range(len(SIMPLE)), range(len(over(N(1), N(1))))))), sorted(USES)), postponed, 'expressions that wait for a parameter'),
    ]
