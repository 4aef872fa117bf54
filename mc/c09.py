"""C09: modules are found in search order, imported as asked, and skip is local."""
import itertools
import os

from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('every import graph over an input and modules with every sequence of texts, assignments, uses, imports and skips, and '
        'every placement of a module over the search places under every way of naming it; the text must be that of the model '
        '(textual insertion in order, once or always, skip up to the end of the module); distinct = different texts')
ASSUMPTIONS = ['imports are resolved where they are written: an import in a skipped part counts as done',
               'a module that imports itself by a quoted name without end, and skip inside a macro or a function, are excluded']

# -- pieces: text, set, use, import once, import always, skip, import the result of an expression
PIECES = {
    't': lambda m: '%s.' % m,
    'a': lambda m: '($set a %s1)' % m,
    'b': lambda m: '($set b "%s2")' % m,
    'A': lambda m: '<($a)>',
    'B': lambda m: '<($b)>',
    'm': lambda m: '($import m)',
    'M': lambda m: '($import "m.yu")',
    'n': lambda m: '($import n)',
    'N': lambda m: "($import 'n.yu')",
    'o': lambda m: '($import o)',
    'O': lambda m: '($import "o.yu")',
    's': lambda m: '($skip)',
    'c': lambda m: '($macro a () %s3)' % m,
    'e': lambda m: '($import { "e($set b %s4)" })' % m,
    'C': lambda m: '($ skip ? 1 | 0)',
    'K': lambda m: '($ skip ? 0 | 5)',
    'L': lambda m: '_\n %s ' % m,
}


def text_of(pieces, m):
    return ''.join(PIECES[p](m) for p in pieces)


def flatten(name, mods, once, out, top=True):
    """Insertion at parsing: a list of pieces with the marks of modules."""
    if not top:
        out.append(('begin', name))
    for p in mods[name]:
        if p in 'mno':
            if p not in once:
                once.add(p)
                flatten(p, mods, once, out, False)
        elif p in 'MNO':
            once.add(p.lower())
            flatten(p.lower(), mods, once, out, False)
        else:
            out.append((p, name))
    if not top:
        out.append(('end', name))


def expect(mods):
    flat = []
    flatten('x', mods, set(), flat)
    out, env, level = [], {}, 0
    for p, m in flat:
        if level:
            level += (p == 'begin') - (p == 'end')
            continue
        if p in ('begin', 'end'):
            continue
        if p == 't':
            out.append('%s.' % m)
        elif p == 'a':
            env['a'] = m + '1'
        elif p == 'b':
            env['b'] = '"%s2"' % m
        elif p == 'c':
            env['a'] = m + '3'
        elif p == 'e':
            out.append('e')
            env['b'] = m + '4'
        elif p in 'AB':
            out.append('<%s>' % env.get(p.lower(), p.lower()))
        elif p == 'K':
            out.append('5')
        elif p == 'L':
            out.append('_\n %s ' % m)
        elif p in 'sC':
            level = 1
    return ''.join(out)


def norm(s):
    return '\n'.join(x.rstrip() for x in s.rstrip().split('\n'))


def cyclic(mods):
    """A quoted import that comes back to its own module has no end."""
    def reach(x):
        seen, todo = set(), [p.lower() for p in mods[x] if p in 'MNOmno']
        while todo:
            y = todo.pop()
            if y not in seen:
                seen.add(y)
                todo.extend(p.lower() for p in mods[y] if p in 'MNOmno')
        return seen
    return any(x in reach(x) for x in mods if x != 'x')


def check_graph(case, ctx):
    """All inputs of a set over given modules."""
    inputs, mods = case
    mods = dict(mods)
    root = ctx.dir()
    os.chdir(root)
    for m in 'mno':
        mods.setdefault(m, '')
        with open(m + '.yu', 'w') as f:
            f.write(text_of(mods[m], m))
    res = []
    for x in INPUTS[inputs]:
        mods['x'] = x
        src = text_of(x, 'x')
        want = expect(mods)
        o = h.translate(src, 'x.yu-c')
        ctx.count('programs')
        ctx.state((x, mods['m'], mods['n'], mods['o']))
        if not o.ok or norm(str(o.text)) != norm(want):
            raise Violation('input %r, modules %r\ngot   %r %r\nmodel %r' % (
                src, {m: text_of(mods[m], m) for m in 'mno'}, o.text, o.errors, want))
        res.append(str(o.text))
    return hash(tuple(res))


# -- where modules are looked for
PLACES = ['.', 'in', 'd1', 'd2']
FORMS = {
    'plain': ('($import mod)($v)', 'mod.yu', '($set v %s)'),
    'quoted': ('($import "mod.yu")($v)', 'mod.yu', '($set v %s)'),
    'single': ("($import 'mod.inc')($v)", 'mod.inc', '($set v %s)'),
    'sub': ('($import "s/mod.yu")($v)', 's/mod.yu', '($set v %s)'),
    'script': ('($import "mod.py")($v)', 'mod.py', 'v = "%s"'),
    'subscript': ('($import "s/mod.py")($v)', 's/mod.py', 'v = "%s"'),
    'lib': ('($import stdlib)($v)', 'stdlib.yu', '($set v %s)'),
    'twice': ('($import mod)($import mod)($v)', 'mod.yu', '.($set v %s)'),
    'nested': ('($import "outer.yu")($v)', 'mod.yu', '($set v %s)'),
}


def put(root, place, name, text):
    p = os.path.join(root, place, name)
    if not os.path.isdir(os.path.dirname(p)):
        os.makedirs(os.path.dirname(p))
    with open(p, 'w') as f:
        f.write(text)


def check_place(case, ctx):
    form, have, where, dirs, blocked, absolute = case
    root = ctx.dir()
    os.chdir(root)
    src, name, body = FORMS[form]
    for d in PLACES:
        if not os.path.isdir(d):
            os.mkdir(d)
    for i in have:
        put(root, PLACES[i], name, body % ('p%d' % i))
    if form == 'nested':
        # -- the importing input is what counts, not the importing module
        put(root, 'd2', 'outer.yu', '($import mod)')
        if 'd2' not in dirs:
            put(root, '.', 'outer.yu', '($import mod)')
    for i in blocked:
        if i not in have:
            # -- a directory is not a module
            os.makedirs(os.path.join(PLACES[i], name))
    put(root, where, 'input.yu-c', src + '\n')
    order = ['.', where] + list(dirs)
    want = next((PLACES.index(d) for d in order if PLACES.index(d) in have), None)
    fn = os.path.join(root, where, 'input.yu-c') if absolute else os.path.join(where, 'input.yu-c') if where != '.' else 'input.yu-c'
    args = ['-q', '--no-read-only']
    for d in dirs:
        args += ['-d', os.path.join(root, d) if absolute else d]
    rc, out, logs = h.cli(args + [fn])
    res = os.path.join(root, where, 'input.c')
    got = None
    if os.path.isfile(res):
        with open(res) as f:
            got = f.read().strip()
    errs = [m for lv, m in logs if lv >= 40]
    if want is None and form == 'lib':
        # -- the bundled one defines no v
        ok = rc == 0 and got == 'v'
        exp = 'v'
    elif want is None:
        ok = rc == 4 and got is None and len(errs) == 1 and os.path.basename(name) in errs[0]
        exp = 'an error'
    else:
        exp = ('.' if form == 'twice' else '') + 'p%d' % want
        ok = rc == 0 and got == exp
    if not ok:
        raise Violation('%s in %s, input in %r, directories %r: status %r, text %r, errors %r, expected %r' % (
            name, [PLACES[i] for i in have], where, dirs, rc, got, errs, exp))
    return form, got


# -- an input of the name of a module
NAMES = {'input': ['sub/m.yu', 'sub/stdlib.yu', 'sub/m.yu-c', 'sub/n.yu', 'sub/0', 'sub/1.yu', 'sub/1', 'sub/none'],
         'import': ['($import m)($va)', '($import "m.yu")($va)', '($import n)($import m)($va)', '($import m)($import "m.yu")($va)',
                    '($import { "($set q 1)" })($import m)($va)', '($import { "($import m)" })($va)', '($macro Q (p) ($p))($Q 1)($import m)($va)',
                    '($import stdlib)($import m)($range 3)($va)', '($import "0")($va)', '($import "1")($va)', '($import { "($import \\"0\\")" })($va)',
                    '($macro Q () ($import m))($Q)($va)', '($import { "k" })($import { "k" })($import "1")($va)']}


def check_name(case, ctx):
    """What an input is called has no say in what it imports."""
    inp, src = case
    root = ctx.dir()
    os.chdir(root)
    for m in ('m.yu', 'n.yu', '0', '1'):
        put(root, '.', m, '($set va 7)')
    res = []
    for fn in ('sub/other.yu-c', inp):
        put(root, os.path.dirname(fn), os.path.basename(fn), src)
        with open(fn) as f:
            text = f.read()
        o = h.translate(text, fn, None)
        res.append((o.ok, str(o.text), len(o.errors)))
        os.remove(fn)
    if res[0] != res[1]:
        raise Violation('input %r named %r\ngot       %r\nelsewhere %r' % (src, inp, res[1], res[0]))
    return res[0]


# -- what a module defines is visible to all that follows
DEFS = [('($set v 7)', '($v)', '7'), ('($set (v w) (7 8))', '($v)', '7'), ('($set v \\p.(p 7))', '($v x)', 'x7'), ('($macro v (p) [($p)])', '($v 3)', '[3]'),
        ('($macro w () ($set v 7))($w)', '($v)', '7'), ('($set v (7 8))', '($v \\q.(q q))', '7788'), ('($set v `(1)`)'.replace('`(1)`', '(`1)'), '($v)', '1')]
AFTERS = ['%s', '($ [%s])', '($set f \\z.[%s])($f 1)', '($let u 1 [%s])', '($macro k () %s)($k)', '($import "use.yu")', '($ 1 ? %s | 2)'.replace('? %s', '? 1') + '%s',
          '($import { "" })%s', '[%s]', '($set f \\z.[%s])($set g \\z.[($f 1)])($g 1)', '($ %s ? 1 | 2)']
WRAPS = ['($import def)%s', '($import "def.yu")%s', '($import "outer.yu")%s', '($import { "($import def)" })%s', '($import def)($import def)%s',
         'q($import def)r%s', '($import none_)%s($import def)%s', '($set v 1)($import def)%s', '($import def)($import "def.yu")%s', '\n($import def)\n\n%s\n']


def check_visible(case, ctx):
    d, a, w = case
    root = ctx.dir()
    os.chdir(root)
    code, use, val = DEFS[d]
    for n, t in (('def', code), ('outer', 'x($import def)y'), ('use', use), ('none_', '')):
        put(root, '.', n + '.yu', t)
    after = AFTERS[a]
    src = WRAPS[w].replace('%s', after.replace('%s', use))
    direct = WRAPS[w].replace('%s', after.replace('%s', use))
    for n, t in (('($import "use.yu")', use), ('($import none_)', ''), ('($import { "($import def)" })', code), ('($import "outer.yu")', 'x%sy' % code)):
        direct = direct.replace(n, t)
    first = direct.find('($import def)')
    if first >= 0:
        direct = direct[:first] + code + direct[first + 13:].replace('($import def)', '')
    direct = direct.replace('($import "def.yu")', code)
    o, p = h.translate(src), h.translate(direct)
    if (o.ok, ''.join(str(o.text).split())) != (p.ok, ''.join(str(p.text).split())):
        raise Violation('%r gives\n%r %r\nwith the module written out\n%r gives\n%r %r' % (src, o.text, o.errors, direct, p.text, p.errors))
    return str(o.text)


# -- scripts: several of one base name in different places
SCRIPTS = ['s.py', 'x/s.py', 'y/s.py', 't.py', 'x/t.py', 'u', 'x/u']


def check_scripts(case, ctx):
    seq, where, module = case
    root = ctx.dir()
    os.chdir(root)
    for i, s in enumerate(SCRIPTS):
        if s.endswith('.py'):
            put(root, where or '.', s, 'def f%d(x):\n    return x + %d\nc%d = %d\n' % (i, 10 * i, i, i))
        else:
            put(root, where or '.', s + '.yu', '($set f%d \\x.(add x %d))($set c%d %d)' % (i, 10 * i, i, i))
    imp = ['($import "%s")' % s if s.endswith('.py') else '($import "%s.yu")' % s for s in (SCRIPTS[i] for i in seq)]
    out, want = [], []
    for k, i in enumerate(seq):
        if module:
            put(root, '.', 'k%d.yu' % k, imp[k])
            out.append('($import k%d)' % k)
        else:
            out.append(imp[k])
        for j in sorted(set(seq[:k + 1])):
            out.append('<($f%d 1)>' % j if SCRIPTS[j].endswith('.py') else '<($c%d)>' % j)
            want.append('<%d>' % (1 + 10 * j) if SCRIPTS[j].endswith('.py') else '<%d>' % j)
    o = h.translate(''.join(out), 'in.yu-c', directory=[where] if where else [])
    if not o.ok or str(o.text).strip() != ''.join(want):
        raise Violation('%r in %r\ngot  %r %r\nwant %r' % (''.join(out), where, o.text, o.errors, ''.join(want)))
    return ''.join(want)


INPUTS = {
    'all': [''.join(w) for w in Words('tAmMnNs', 2)],
    'uses': ['mA', 'tmAt', 'MnAB', 'amAmA', 'MAMA', 'nmAB', 'MsA', 'mtNA', 'bMBnB', 'oAMB', 'LMLA', 'ML', 'emB', 'MCnt', 'MKnt', 'mmnnAB', 'NNAB', 'cMAaNA', 'tMtMt', 'ONMt', 'mnot'],
}
INPUTS['all'] += INPUTS['uses']
INPUTS['long'] = [''.join(w) for w in Words('tAmMnNs', 4, 3)]
INPUTS['three'] = INPUTS['uses'] + [''.join(w) for w in Words('tAMNO', 3, 3) if len(set(w)) == 3]


def modules(k, alphabet, n):
    return [''.join(w) for w in Words(alphabet, n)]


def families(tier):
    t = tier == 'thorough'
    ms = modules('m', 'tabAnNs', 3 if t else 2)
    ns = modules('n', 'taBs', 2)
    pairs = [['long' if t else 'all', {'m': m, 'n': n}] for m in ms for n in ns if not cyclic({'m': m, 'n': n, 'x': '', 'o': ''})]
    deep = [['uses', {'m': m, 'n': n}] for m in modules('m', 'tabceABnNsCKLm', 4 if t else 3) for n in modules('n', 'tsAm', 2)
            if not cyclic({'m': m, 'n': n, 'x': '', 'o': ''})]
    loops = [['all', {'m': m, 'n': n}] for m in modules('m', 'tmnas', 3 if t else 2) for n in modules('n', 'tmnbs', 3 if t else 2)]
    three = [['three', {'m': m, 'n': n, 'o': o}] for m in modules('m', 'tnNs', 3) for n in modules('n', 'oOsa', 3) for o in modules('o', 'tsA', 2)]
    subsets = [list(c) for k in range(5) for c in itertools.combinations(range(4), k)]
    dirs = [[], ['d1'], ['d2'], ['d1', 'd2'], ['d2', 'd1'], ['.', 'd1'], ['in', 'd2']]
    return [
        Family('graphs', pairs, check_graph, 'every input over two modules', chunk=8),
        Family('modules', deep if t else [x for x in deep if len(x[1]['m']) < 3 or not x[1]['n']], check_graph, 'longer modules', chunk=8),
        Family('once', loops, check_graph, 'modules that import each other by name', chunk=8),
        Family('three', three if t else [x for x in three if len(x[1]['m']) + len(x[1]['n']) + len(x[1]['o']) < 6], check_graph, 'three modules in a row', chunk=8),
        Family('places', Prod(sorted(FORMS), subsets, ['in', '.'], dirs if t else dirs[:5], [[], [0, 1, 2]], [0, 1]), check_place,
               'every placement of a module over the search places'),
        Family('scripts', Prod(Map(list, Words(range(len(SCRIPTS)), 4 if t else 3, 1)), ['', 'lib1'], [0, 1]), check_scripts, 'every sequence of imported scripts'),
        Family('names', Prod(NAMES['input'], NAMES['import']), check_name, 'inputs called like modules'),
        Family('visible', Prod(range(len(DEFS)), range(len(AFTERS)), range(len(WRAPS))), check_visible, 'every definition used every way after every import'),
    ]
