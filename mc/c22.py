"""C22: multi-passage sources produce every passage exactly once."""
import os

from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('every source with up to two or three passage declarations of every length and every use of the value, with a fixed, '
        'default or per-passage output name, alone and in a row with other sources, is run through the command; the files '
        'and contents left must be those of the model (one translation per element, in order); distinct = different sets of files')
ASSUMPTIONS = ['a declaration with fewer elements than another one yields nothing in the passages beyond its end']

# -- a declaration: (source with %s for the list, text of passage k from the elements, what it does with a missing element)
NUM = ['0', '2', '1', '2']
STR = ['"a"', '"b"', '"c"', '"a"']
NEST = ['(1 2)', '(3)', '()', '(4 "z")']


def cat(x):
    return x.strip('()').replace(' ', '')


DECLS = {
    'direct': ('<($__PASSAGE__ (%s))>', NUM, lambda e: '<%s>' % (e or '')),
    'set': ('($set i ($__PASSAGE__ (%s)))<($i)>', NUM, lambda e: '<%s>' % (e or '')),
    'twice': ('($set j ($__PASSAGE__ (%s)))<($j)-($j)>', STR, lambda e: '<%s-%s>' % (e or '', e or '')),
    'listvar': ('($set l (%s))($set x ($__PASSAGE__ l))<($x)>', STR, lambda e: '<%s>' % (e or '')),
    'nested': ('[($__PASSAGE__ (%s))]', NEST, lambda e: '[%s]' % cat(e or '')),
    'loop': ('($set y (($__PASSAGE__ (%s)) 9))($y \\p.[{($p)}])', NUM, lambda e: '{%s}{9}' % e if e else '{9}'),
    'module': ('($import "m%d.yu")($v)', NUM, lambda e: (e or '')),
    'eval': ('($import { "($set w ($__PASSAGE__ (%s)))" })<($w)>', NUM, lambda e: '<%s>' % (e or '')),
    'name': ('($set __OUTPUT_FILE__ ($__PASSAGE__ (%s)))', None, None),
    'namevar': ('($set names (%s))($set o ($__PASSAGE__ names))($set __OUTPUT_FILE__ ($o))', None, None),
    'dead': ('($ 8 ? 1 | ($__PASSAGE__ (%s)))', NUM, lambda e: '8'),
}
LIVE = [d for d in sorted(DECLS) if not d.startswith('name') and d != 'dead']
# -- what would show a state left by the passage before
STATE = {
    '': ('', ''),
    'emit': ('($set q (1 2 3))($emit q)($emit q)', '12'),
    'import': ('($import once)($ov)', '7'),
    'script': ('($import "s.py")($sf 1)', '11'),
    'set': ('($isatom late)($set late 3)($isatom late)', '10'),
    'outname': ('($isatom none)', '1'),
}


def decl(kind, n, tag, root):
    """(source, [text of each passage], names or None)"""
    src, elems, text = DECLS[kind]
    if kind.startswith('name'):
        names = ['%s%d.txt' % (tag, k) for k in range(n)]
        return src % ' '.join('"%s"' % x for x in names), None, names
    elems = elems[:n]
    if kind == 'module':
        with open(os.path.join(root, 'm%d.yu' % n), 'w') as f:
            f.write('($set v ($__PASSAGE__ (%s)))' % ' '.join(elems))
        src = src % n
    else:
        src = src % ' '.join(elems)
    return src, [text(e) for e in elems + [None] * (4 - n)], None


def build(parts, state, tag, root):
    """(text of the file, [(name or None, text)] of the passages)"""
    src, cols, names, count = [], [], None, 1
    for kind, n in parts:
        s, texts, nm = decl(kind, n, tag, root)
        src.append(s)
        if nm is not None:
            names = nm
            cols.append([''] * 4)
        else:
            cols.append(texts)
        if kind != 'dead':
            count = max(count, n)
    s, st = STATE[state]
    src.append(s)
    passages = []
    for k in range(count):
        passages.append((names[k] if names and k < len(names) else None, 'T' + ''.join(c[k] for c in cols) + st + '\n'))
    return 'T' + ''.join(src) + '\n', passages


def apply(model, default, passages):
    for name, text in passages:
        name = name or default
        if name in model:
            model[name + '.bak'] = model.pop(name)
        model[name] = text


def listing(root, skip):
    got = {}
    for x in sorted(os.listdir(root)):
        if x in skip:
            continue
        with open(os.path.join(root, x)) as f:
            got[x] = f.read()
    return got


def run(sources, root):
    """sources: [(parts, state)]; one command over all of them."""
    with open('once.yu', 'w') as f:
        f.write('($set ov 7)')
    with open('s.py', 'w') as f:
        f.write('def sf(x):\n    return x + 10\n')
    model, files, desc = {}, [], []
    for i, (parts, state) in enumerate(sources):
        tag = 'abc'[i]
        text, passages = build(parts, state, tag, root)
        with open(tag + '.yu-c', 'w') as f:
            f.write(text)
        files.append(tag + '.yu-c')
        desc.append(text)
        apply(model, tag + '.c', passages)
    skip = set(os.listdir(root))
    rc, out, logs = h.cli(['-q'] + files)
    got = listing(root, skip)
    if rc != 0 or got != model:
        raise Violation('sources %r\nstatus %r, log %r\nfiles  %r\nmodel  %r' % (
            desc, rc, [m for lv, m in logs if lv >= 30][:3], got, model))
    return repr(sorted(got.items()))


def check_one(case, ctx):
    parts, state = case
    root = ctx.dir()
    os.chdir(root)
    ctx.state((tuple(map(tuple, parts)), state))
    return run([(parts, state)], root)


def check_row(case, ctx):
    root = ctx.dir()
    os.chdir(root)
    return run([([p], st) if p else ([], st) for p, st in case], root)


def check_fail(case, ctx):
    """A failing passage: its file is not written, the earlier ones stay, the next source is processed, the file counts once."""
    n, at, after, how = case
    root = ctx.dir()
    os.chdir(root)
    elems = ['1'] * n
    elems[at] = {'error': '0', 'type': '"x"', 'unbound': 'nosuch', 'name': '1'}[how]
    names = ['a%d.txt' % k for k in range(n)]
    if how == 'name':
        names[at] = 'nodir/x'
    with open('a.yu-c', 'w') as f:
        f.write('($set __OUTPUT_FILE__ ($__PASSAGE__ (%s)))($set d ($__PASSAGE__ (%s)))($div 4 d)\n' % (
            ' '.join('"%s"' % x for x in names), ' '.join(elems)))
    with open('b.yu-c', 'w') as f:
        f.write('($set __OUTPUT_FILE__ ($__PASSAGE__ ("b0.txt" "b1.txt" "b2.txt")))b\n')
    files = ['a.yu-c', 'b.yu-c'] if after else ['b.yu-c', 'a.yu-c']
    rc, out, logs = h.cli(['-q'] + files)
    got = sorted(x for x in os.listdir(root) if not x.endswith(('.yu-c', '.ast')))
    want = sorted(['b0.txt', 'b1.txt', 'b2.txt'] + ['a%d.txt' % k for k in range(at)])
    errs = [m for lv, m in logs if lv >= 40]
    if rc != 4 or got != want or len(errs) != 1:
        raise Violation('%d passages, %d fails: status %r, files %r (want %r), errors %r' % (n, at, rc, got, want, errs))
    return n, at


def check_again(case, ctx):
    """A source with passages imported or translated as text after a command: the first passage."""
    first, second = case
    root = ctx.dir()
    os.chdir(root)
    for n, t in (('a', '($set __OUTPUT_FILE__ ($__PASSAGE__ ("p1.txt" "p2.txt" "p3.txt")))x\n'),
                 ('f', '($set d ($__PASSAGE__ (1 0 1)))($div 1 d)\n'), ('n', '<($__PASSAGE__ (1 2 3))>\n'), ('k', '<($__PASSAGE__ (1 2 3))>\n')):
        with open(n + '.yu-c', 'w') as f:
            f.write(t)
    if first:
        h.cli(['-q'] + first)
    if second == 'proc':
        (ok, fn), _, _ = h.proc_file('k.yu-c')
        with open('k.c') as f:
            got = f.read()
    elif second == 'text':
        _, out, _ = h.cli(['-q', '-i', '<($__PASSAGE__ (1 2 3))>', 'a.yu-c'])
        got = out.lstrip('\n')[:4]
    else:
        h.cli(['-q', '-o', 'o', 'none.yu-c', 'n.yu-c'] if second == 'fail' else ['-q', 'n.yu-c'])
        if second == 'fail':
            return 'fail'
        with open('n.c.bak') as f:
            got = f.read()
        if got != '<2>\n':
            raise Violation('after %r: the passage before the last is %r' % (first, got))
        with open('n.c') as f:
            got = f.read()
        if got != '<3>\n':
            raise Violation('after %r: the last passage is %r' % (first, got))
        return got
    if got.rstrip('\n') != '<1>':
        raise Violation('after %r: %s gives %r, not the first passage' % (first, second, got))
    return got


def families(tier):
    t = tier == 'thorough'
    lens = [0, 1, 2, 3, 4]
    names = ['name', 'namevar']
    one = Map(lambda p: [list(p)], Prod(LIVE + names + ['dead'], lens))

    def pair(x):
        a, n, b, m = x
        return [[a, n], [b, m]]

    # -- two declarations of values: any lengths; a name and a value: as many names as passages
    values = Map(pair, Prod(LIVE, lens, LIVE, lens))
    named = Map(lambda x: [[x[0], x[2]], [x[1], x[2]]], Prod(names, LIVE, lens))
    named2 = Map(lambda x: [[x[1], x[2]], [x[0], x[2]]], Prod(names, LIVE, lens))
    longer = Map(lambda x: [[x[0], max(x[2], x[3])], [x[1], min(x[2], x[3])]], Prod(names, LIVE, lens, lens))
    dead = Map(lambda x: [[x[0], x[1]], ['dead', x[2]]], Prod(LIVE + names, lens, lens))
    three = Map(lambda x: [[x[0], x[1]], [x[2], x[3]], [x[4], x[5]]],
                Prod(LIVE, [1, 2, 4], LIVE, [0, 1, 3], LIVE, [1, 2, 3]) if t else Prod(['direct', 'set'], [1, 2, 4], ['direct', 'eval'], [0, 1, 3], ['twice', 'module'], [1, 2, 3]))
    states = sorted(STATE)
    sources = [None] + [[k, n] for k in (LIVE + names if t else ['direct', 'set', 'name']) for n in (1, 2, 3)]
    srcs = Prod(sources, ['', 'import', 'set'] if t else [''])
    return [
        Family('single', Prod(one, states), check_one, 'every declaration of every length with every other state'),
        Family('values', Prod(values, states if t else ['']), check_one, 'every two declarations of values'),
        Family('named', Prod(Sum(named, named2, longer, dead), states if t else ['', 'emit']), check_one, 'a name and a value for each passage'),
        Family('three', Prod(three, ['']), check_one, 'three declarations'),
        Family('rows', Sum(Prod(srcs, srcs), Prod(srcs, srcs, srcs) if t else Prod(srcs, Prod([None], ['']), srcs)), check_row,
               'sources in a row'),
        Family('failing', [[n, k, a, how] for n in (1, 2, 3, 4) for k in range(n) for a in (0, 1) for how in ('error', 'type', 'unbound', 'name')], check_fail, 'a passage that fails'),
        Family('again', Prod([None, ['a.yu-c'], ['f.yu-c'], ['a.yu-c', 'f.yu-c'], ['n.yu-c'], ['none.yu-c'], ['a.yu-c', 'none.yu-c']],
                             ['proc', 'text', 'cli', 'fail']), check_again, 'after an earlier command'),
    ]
