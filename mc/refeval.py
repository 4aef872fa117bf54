"""Reference model of the language: abstract programs, their source text, and what they evaluate to.

Lexically scoped, call by value, written from the documentation.  It covers the part of the language whose meaning the
documentation fixes; see the assumptions of the checks that use it.

Nodes: ('txt', s) ('num', n) ('flt', x) ('str', literal) ('var', name) ('app', fn, args, named) ('lam', pars, body)
('cond', c, a, b or None) ('list', items) ('emb', x) ('set', name or names, x) ('let', name or names, x, body)
('infix', python) ('text', nodes)
('late', name) is &name; ('lazy', x) is ($lazy x).
pars: [(name, default or None)], '...' as the name of the variadic one, 'l..m..name' if the names l and m are late.
"""
import copy
import math
import operator
import re


class Atom(str):
    pass


class Lit(str):
    """A string literal, with its quotes (or the result of formatting one)."""


class Fail(Exception):
    """The program is erroneous: a report and no text is expected."""


class Unspecified(Exception):
    """The documentation does not say what the program means; it is not judged."""


class NeedLate(Fail):
    """A late name that has no value yet is used."""


class Thunk(object):
    """An argument (or a value) that waits for late names."""

    def __init__(self, node, env):
        self.node, self.env = node, env


class Closure(object):
    def __init__(self, pars, body, env, vals=None, late=False):
        self.lates = {p.split('..')[-1]: p.split('..')[:-1] for p, _ in pars if '..' in p and p != '...'}
        self.pars = [(p if p == '...' else p.split('..')[-1], d) for p, d in pars]
        if self.lates:
            self.pars, pars = [(p, d) for p, d in self.pars], pars
        self.body, self.env, self.vals, self.late = body, env, vals or {}, late

    def missing(self):
        for n, d in self.pars:
            if n not in self.vals:
                return n, d
        return None


class Env(object):
    def __init__(self, parent=None, late=False, outer=None, hidden=()):
        self.d = {}
        self.hidden = hidden        # late names which are to be given by the function called
        self.parent = parent
        self.late = late            # the names are late ones
        self.outer = outer          # environment whose late names are seen after those of this one

    def frozen(self):
        """The names and values of this moment: what a function defined now sees (emits change variables later)."""
        e = Env(self.parent.frozen() if self.parent else None, self.late, self.outer, self.hidden)
        e.d.update(self.d)
        return e

    def get_late(self, n):
        e, outer = self, []
        while e is not None:
            if e.late and n in e.d:
                return e.d[n]
            if e.outer is not None:
                outer.append(e.outer)
            if n in e.hidden:
                break
            e = e.parent
        for o in outer:
            v = o.get_late(n)
            if v is not MISSING:
                return v
        return MISSING

    def get(self, n):
        e = self
        while e is not None:
            if n in e.d and not e.late:
                return e.d[n]
            e = e.parent
        return MISSING


MISSING = object()


class Late(Closure):
    pass


class Stuck(object):
    """An expression that cannot be reduced; an error only if it is part of the result."""


STUCK = Stuck()


class Lazy(object):
    """A value that is not evaluated until it is used."""

    def __init__(self, value):
        self.value = value.value if isinstance(value, Lazy) else value


class Builtin(object):
    def __init__(self, fn):
        self.fn = fn


def _index(l, v):
    return l.index(v) if v in l else -1


BUILTIN = {
    'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'inc': lambda v: v + 1, 'dec': lambda v: v - 1,
    'len': len, 'car': lambda l: l[:1], 'cdr': lambda l: l[1:], 'list': lambda *l: list(l), 'eq': operator.eq,
    'lt': operator.lt, 'gt': operator.gt, 'not': operator.not_, 'range': lambda *l: list(range(*l)), 'sum': sum,
    'reversed': lambda v: v[::-1], 'str': lambda v='': plain(v), 'index': _index, 'abs': abs, 'neg': operator.neg,
    'islist': lambda l: isinstance(l, list), 'mod': operator.mod, 'pow': operator.pow, 'concat': operator.concat,
    'getitem': operator.getitem, 'chr': chr, 'hex': hex, 'ne': operator.ne, 'pi': math.pi,
}


# --------------------------------------------------------------------------- source text
def src(n):
    """The text of a node as part of a text."""
    k = n[0]
    if k == 'txt':
        return n[1]
    if k == 'set':
        return '($set %s %s)' % (lval(n[1]), arg(n[2]))
    if k == 'let':
        return '($let %s %s %s)' % (lval(n[1]), arg(n[2]), arg(n[3]))
    if k == 'app':
        return app(n)
    if k == 'text':
        return ''.join(src(x) for x in n[1])
    if k == 'raw':
        return n[1]
    if k == 'emit':
        return '($emit %s%s)' % (n[1], '' if n[2] is None else ' ' + arg(n[2]))
    return '($ %s)' % arg(n)


def lval(x):
    return x if isinstance(x, str) else '(%s)' % ' '.join(x)


def app(n):
    fn = n[1]
    f = fn[1] if fn[0] == 'var' else ' ' + arg(fn)
    return '($%s%s%s)' % (f, ''.join(' ' + arg(x) for x in n[2]),
                          ''.join(' \\%s %s' % (k, arg(x)) for k, x in n[3]))


def arg(n):
    """The text of a node as a form (an argument)."""
    k = n[0]
    if k == 'num':
        return str(n[1])
    if k == 'flt':
        return repr(n[1])
    if k == 'str':
        return n[1]
    if k == 'var':
        return n[1]
    if k == 'app':
        return app(n)
    if k == 'lam':
        assert n[2][0] in ('app', 'list', 'infix', 'let', 'text', 'txt', 'lam'), n
        return ''.join('\\%s%s%s' % (p if p == '...' else p.replace('..', '..\\'), '' if d is None else ':' + arg(d), '' if p == '...' and d is None else '.')
                       for p, d in n[1]) + arg(n[2])
    if k == 'cond':
        w = [('($ %s)' if x[0] == 'cond' else '%s') % arg(x) for x in (n[2], n[1])]
        return '%s ? %s%s' % (w[0], w[1], '' if n[3] is None else ' | ' + arg(n[3]))
    if k == 'list':
        return '(%s)' % ' '.join(arg(x) for x in n[1])
    if k == 'emb':
        return '*' + arg(n[1])
    if k == 'infix':
        return '{%s}' % n[1]
    if k == 'text':
        return '[%s]' % ''.join(src(x) for x in n[1])
    if k == 'txt':
        return '[%s]' % n[1]
    if k in ('let', 'emit'):
        return src(n)
    if k == 'raw':
        return n[1]
    if k == 'late':
        return '&' + n[1]
    if k == 'lazy':
        return '($lazy %s)' % arg(n[1])
    raise AssertionError(k)


# --------------------------------------------------------------------------- evaluation
def plain(v):
    """The text a value renders as."""
    if v is None:
        return ''
    if isinstance(v, list):
        return ''.join(plain(x) for x in v)
    if isinstance(v, Thunk):
        raise NeedLate('late')
    if isinstance(v, (Closure, Builtin, Stuck)):
        raise Fail('not a text')
    return str(v)


def is_term(v):
    if isinstance(v, list):
        return all(is_term(x) for x in v)
    return not isinstance(v, (Closure, Builtin, Stuck, Thunk))


def items(nodes, env, lates=lambda i: ()):
    """A list of nodes: values in order, nothing dropped, embedded lists spliced."""
    out = []
    for x in nodes:
        if x[0] == 'emb':
            v = ev(x[1], env)
            if isinstance(v, list):
                out.extend(v)
            elif v is None:
                raise Unspecified('nothing embedded')
            else:
                out.append(v)        # an embedded value which is not a list stands for itself
        else:
            v = delayed(x, env, lates(len(out)))
            if v is not None:
                out.append(v)
    return out


def waits(v):
    return any(waits(x) for x in v) if isinstance(v, list) else isinstance(v, Thunk)


def delayed(x, env, hidden=()):
    """The value of a node, or what waits for its late names."""
    if hidden:
        env = Env(env, hidden=tuple(hidden))
    try:
        v = ev(x, env)
    except NeedLate:
        return Thunk(x, env.frozen())
    if waits(v) or hidden and opened(v):
        return Thunk(x, env.frozen())
    return v


def opened(v):
    return any(opened(x) for x in v) if isinstance(v, list) else isinstance(v, Closure)


def force(v, env):
    """The value once more names may be known."""
    if isinstance(v, Thunk):
        try:
            return ev(v.node, Env(v.env, outer=env))
        except NeedLate:
            return v
    return v


def assign(lv, val):
    """[(name, value)] of an assignment."""
    if isinstance(lv, str):
        return [(lv, val)]
    if val is STUCK:
        raise Unspecified('assignment of an irreducible value to several names')
    if isinstance(val, list):
        return [(n, val[i] if i < len(val) else None) for i, n in enumerate(lv)]
    return [(n, val) for n in lv]


def ev(n, env):
    k = n[0]
    if k == 'num' or k == 'flt':
        return n[1]
    if k == 'str':
        return Lit(n[1])
    if k == 'txt':
        return n[1]
    if k == 'text':
        return text(n[1], env)
    if k == 'var':
        v = env.get(n[1])
        if v is not MISSING:
            return force(v, env)
        if n[1] in BUILTIN:
            return Builtin(BUILTIN[n[1]])
        if '-' in n[1]:
            # -- not a name of C: late without a mark
            v = env.get_late(n[1])
            if v is MISSING:
                raise NeedLate(n[1])
            return v
        return Atom(n[1])
    if k == 'late':
        v = env.get_late(n[1])
        if v is MISSING:
            raise NeedLate(n[1])
        return v
    if k == 'value':
        return force(n[1], env)
    if k == 'lazy':
        v = ev(n[1], env)
        return [Lazy(x) for x in v] if isinstance(v, list) else Lazy(v)
    if k == 'list':
        return items(n[1], env)
    if k == 'lam':
        pars, b = list(n[1]), n[2]
        while b[0] == 'lam':                       # written one after the other they are one function
            pars, b = pars + list(b[1]), b[2]
        return Closure([(p, MISSING if d is None else delayed(d, env, p.split('..')[:-1] if p != '...' else ())) for p, d in pars], b, env.frozen())
    if k == 'cond':
        c = ev(n[1], env)
        if waits(c):
            raise NeedLate('condition')
        if not is_term(c):
            return STUCK
        leg = n[2] if c else n[3]
        return None if leg is None else ev(leg, env)
    if k == 'let':
        e = Env(env)
        for name, v in assign(n[1], delayed(n[2], env)):
            e.d[name] = v
        return ev(n[3], e)
    if k == 'infix':
        names = Names(env)
        try:
            v = eval(compile(n[1].strip(), '', 'eval'), {}, names)
        except IsStuck:
            return STUCK
        except Fail:
            raise
        except Exception as e:
            raise Fail('python: %s' % e)
        if isinstance(v, list) and None in v:
            raise Unspecified('nothing as an element')
        return str(v) if isinstance(v, str) else v
    if k == 'emit':
        e = env
        while n[1] not in e.d:
            e = e.parent
            if e is None:
                raise Fail('undefined')
        v = e.d[n[1]]
        if isinstance(v, list):
            res, v = (v[0], v[1:]) if v else (None, v)
        else:
            res = v
        if n[2] is not None:
            v = apply(ev(n[2], env), [] if v is None else [v], [])
        e.d[n[1]] = v
        return res
    if k == 'app':
        fn = ev(n[1], env)
        lates = getattr(fn, 'lates', {})
        if lates:
            names = [p for p, _ in fn.pars if p not in fn.vals and p not in [q for q, _ in n[3]]]
            args = items(n[2], env, lambda i: lates.get(names[i], ()) if i < len(names) else ())
        else:
            args = items(n[2], env)
        return apply(fn, args, [(p, delayed(x, env, lates.get(p, ()))) for p, x in n[3]])
    raise AssertionError(k)


class Names(dict):
    def __init__(self, env):
        dict.__init__(self)
        self.env = env

    def __missing__(self, name):
        v = self.env.get(name)
        if v is MISSING:
            if name in PYTHON:
                return PYTHON[name]
            raise Fail('python: name')
        if not is_term(v):
            raise IsStuck()
        return copy.deepcopy(v)


class IsStuck(Exception):
    pass


def deadlock(v):
    return any(deadlock(x) for x in v) if isinstance(v, list) else isinstance(v, Builtin)


TRACE = None        # called with every node of a text and the environment it is evaluated in


def state(env):
    """A hashable image of an environment."""
    out = []
    while env is not None:
        out.append(tuple(sorted((k, repr(v) if is_term(v) else '?') for k, v in env.d.items())))
        env = env.parent
    return tuple(out)


PYTHON = dict(BUILTIN, max=max, min=min, int=int, sorted=sorted, bool=bool)


def text(nodes, env):
    out = []
    stuck = False
    for x in nodes:
        if TRACE is not None:
            TRACE(x, env)
        if x[0] == 'set':
            e = Env(env)
            for name, v in assign(x[1], delayed(x[2], env)):
                e.d[name] = v
            env = e
        elif x[0] == 'txt':
            out.append(x[1])
        else:
            v = ev(x, env)
            if waits(v):
                raise NeedLate('text')
            if not is_term(v):
                stuck = True
            elif x[0] in ('let', 'emit', 'text'):
                out.append(plain(v))
            else:
                out.append(dedent(plain(v)))
    return STUCK if stuck else ''.join(out)


def dedent(t):
    """Without the white space common to the lines of a text."""
    lines = t.split('\n')
    full = [x for x in lines if x.strip(' \t')]
    n = 0
    if full:
        while n < len(full[0]) and full[0][n] in ' \t' and all(x[:n + 1] == full[0][:n + 1] for x in full):
            n += 1
    return '\n'.join(x[n:] if x.strip(' \t') else '' for x in lines)


def apply(fn, args, named):
    if fn is None:
        return None
    if isinstance(fn, Stuck):
        return STUCK
    if isinstance(fn, Lazy):
        fn = fn.value
    if waits(fn):
        raise NeedLate('function')
    if not isinstance(fn, Closure) and (waits(args) or any(waits(v) for _, v in named)):
        raise NeedLate('argument')
    if isinstance(fn, Builtin):
        if named:
            raise Fail('named')
        if not callable(fn.fn):
            if args:
                raise Fail('constant')
            return fn.fn
        if not is_term(args):
            if deadlock(args):
                raise Fail('irreducible')
            return STUCK
        try:
            v = fn.fn(*args)
        except Fail:
            raise
        except Exception as e:
            raise Fail('python: %s' % e)
        return int(v) if isinstance(v, bool) else str(v) if isinstance(v, str) else v
    if isinstance(fn, Closure):
        return bind(fn, args, named)
    if isinstance(fn, Atom):
        if args or named:
            raise Fail('unbound')
        return fn
    if isinstance(fn, (int, float)):
        if named:
            raise Fail('named')
        if not args:
            return fn
        if not is_term(args):
            return STUCK
        i = int(fn)
        l = args[0] if len(args) == 1 and isinstance(args[0], list) else args
        try:
            return l[i] if i < len(l) else None
        except IndexError:
            raise Fail('python: index')
    if isinstance(fn, str):
        if not args and not named:
            return fn
        if not is_term(args) or not all(is_term(v) for _, v in named):
            return STUCK
        table = {str(i): plain(v) for i, v in enumerate(args)}
        table.update((p, plain(v)) for p, v in named)
        if any('($' in v for v in table.values()):
            raise Unspecified('a placeholder inside a substituted value')
        return Lit(re.sub(r'\(\$([A-Za-z_0-9-]+)\)', lambda m: table.get(m.group(1), m.group(0)), fn))
    if isinstance(fn, list):
        if named:
            raise Fail('named')
        out = []
        for x in fn:
            for f in args:
                x = apply(f, [] if x is None else [x], [])
            if x is not None:
                out.append(x)
        return out
    raise AssertionError(fn)


def bind(fn, args, named):
    """One parameter after the other: named arguments first, then positional ones, then defaults.  As soon as every
    parameter has a value the body is evaluated, and what is left of the arguments is applied to its value."""
    vals = dict(fn.vals)
    args, named = list(args), list(named)
    names = [p for p, _ in fn.pars]
    wrapped = set(vals)
    while True:
        free = [(p, d) for p, d in fn.pars if p not in vals]
        if not free:
            e = Env(fn.env)
            for p, v in vals.items():
                e.d['__va_args__' if p == '...' else p] = v
            e.late = fn.late
            v = ev(fn.body, e)
            return apply(v, args, named) if args or named else v
        p, d = free[0]
        if named:
            p, v = named.pop(0)
            if p not in names or p == '...':
                raise Fail('no such parameter')
            vals.setdefault(p, v)        # a second value is reported and ignored
        elif args:
            if p == '...':
                vals[p], args = args, []
            else:
                vals[p] = args.pop(0)
        elif d is not MISSING:
            vals[p] = d
        else:
            c = Closure(fn.pars, fn.body, fn.env, vals, fn.late)
            c.lates = fn.lates
            return c
        # -- an argument of a parameter with late names is a function of them
        for p, v in vals.items():
            if p in fn.lates and p not in wrapped:
                wrapped.add(p)
                vals[p] = Late([(x, MISSING) for x in fn.lates[p]], ('value', v), Env(), None, True)


def run(nodes):
    """(True, text) or (False, why) for a program given as the nodes of its text."""
    try:
        t = text(nodes, Env())
        return (False, 'not a text') if t is STUCK else (True, t)
    except NeedLate as e:
        raise Unspecified(str(e))       # nobody gives the late name
    except Fail as e:
        return False, str(e)


def clean(t):
    """The documented line clean-up."""
    out = []
    for x in t.split('\n'):
        x = x.rstrip(' \t')
        if x or not (out and out[-1] == ''):
            out.append(x)
    while len(out) > 1 and out[-1] == '':
        out.pop()
    return '\n'.join(out) + '\n'


def program(nodes):
    """Source text; the leading dot keeps layout rules for the start of a line out of it."""
    return '.' + src(('text', nodes))
