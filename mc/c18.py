"""C18: diagnostic options never change the translation."""
import itertools
import os
import re

from engine import TIER, Family, Map, Prod, Sum, Violation, Words
import harness as h
import c19

LEVEL = 'exploration'
RULE = ('every text of the given alphabets up to a length and every layout of blocks, translated without and with each diagnostic '
        'option, and every source of a set under every combination of them, in process and through the command; distinct = '
        'different results')
ASSUMPTIONS = ['recording of references may differ in white space at line ends and at the end of the file',
               'a trace is taken to the terminal or to a file by the name it is given, its text is not looked at']
WS = ' \t\r\f\v'


def norm(t, squeeze=True):
    lines = [x.rstrip(WS) for x in t.split('\n')]
    out = []
    for x in lines:
        if squeeze and x == '' and out and out[-1] == '':
            continue
        out.append(x)
    return '\n'.join(out).rstrip('\n')


def one(text, inp=None, outp=None, quiet=False, level=10, stage=0, tofile=None, tb=1, type_out=False, **cfg):
    yg, yp = h.yugen, h.yup
    yg.log.setLevel(level)
    yg.trace.stage, old = stage, yg.trace.file
    yg.trace.file = tofile
    yp.shell.traceback = tb
    yp.shell.quiet = quiet
    try:
        with h.captured():
            o = h.translate(text, inp, outp, **cfg)
        return bool(o.ok), str(o.text)
    finally:
        yg.log.setLevel(10)
        yg.trace.stage, yg.trace.file = 0, old
        yg.trace.set_current(0)
        yp.shell()
        yp.shell.traceback = 1
        del h.TRACE.rec[:]


def same(a, b, browse, reduce_=True):
    if a == b:
        return True
    return browse and a[0] == b[0] and norm(a[1], reduce_) == norm(b[1], reduce_)


MODES = [dict(pp_browse=True), dict(stage=3), dict(level=50, quiet=True, warn_unbound_application=False, tb=2), dict(stage=2, tofile='t', pp_browse=True)]


def compare(text, inp=None, outp=None, modes=MODES, base=(dict(), dict(pp_reduce_emptiness=False), dict(pp_trim_app_indent=False))):
    first = None
    for b in base:
        want = one(text, inp, outp, **b)
        if first is None:
            first = want
        for m in modes:
            got = one(text, inp, outp, **dict(b, **m))
            if not same(want, got, m.get('pp_browse'), b.get('pp_reduce_emptiness', True)):
                raise Violation('options %r change the result (%r)\n%s\n%r\n%r' % (m, b, text, want, got))
    return first


def check_text(case, ctx):
    pre, words, post = case
    return compare(pre + ''.join(words) + post, modes=MODES[:3])


def check_layout(case, ctx):
    """The layouts of C19, with references recorded."""
    lines, place, rest, style = case
    block = c19.block_of(lines)
    if style in ('macro', 'eol', 'inline') and c19.empty_start(block):
        return None
    d, a = c19.denote(style, block)
    head = [c19.D(c19.M0)] + ([d] if d else []) + [c19.T('.')]
    return compare(c19.source(head + c19.PLACE[place] + [a] + c19.REST[rest]), modes=[dict(pp_browse=True)], base=[dict(), dict(pp_reduce_emptiness=False)])


def check_nested(case, ctx):
    inner, si, outer, so, place, rest = case
    d1, a1 = c19.denote(si, c19.INNER[inner])
    pre, post = c19.OUTER[outer]
    block = pre + [a1] + post
    head = []
    if d1:
        head.append(c19.D(d1[1].replace('set b', 'set n').replace('macro b', 'macro n')))
        a1 = c19.A(a1[1].replace('($b', '($n').replace(' b)', ' n)').replace(' b ', ' n '), a1[2])
        block = pre + [a1] + post
    d2, a2 = c19.denote(so, block)
    head += [d2] if d2 else []
    return compare(c19.source([c19.D(c19.M0)] + head + [c19.T('.')] + c19.PLACE[place] + [a2] + c19.REST[rest]), modes=[dict(pp_browse=True)],
                   base=[dict(), dict(pp_reduce_emptiness=False)])


SOURCES = ['', 'a\n\n\nb', 'a ($add 1 2) b', '($set f \\p.[\n    a ($p)\n  ])\n  x ($f 1) ($f 2)\n', '($macro m (p q)\n  ($p)\n\n  ($q)\n)\n  ($m,,1,,2)\n', '($unbound 1)',
           'x ($unb)', '($ (1 2 3) \\p.[($p)\n])', '($add 1 "s")', '($', '($set x 1', '($div 1 0)', '($import lib)\n($g 3)', '($import none)', '($ { 1/0 })',
           '($ [\ta\n\tb\n ])', '(${} 1 + 2)', '($set l (1 2))($emit l)($emit l)($emit l)', '($ \\&e\\p.(p) x)', '($isatom z)($repr z)', '($__FILE__)($__LINE__)', '($strlen u)',
           '($macro S (v) ($set z ($v)))($S 5)($z)', '($ "%s d" 1)', '($SPACE)a($TAB)', "($let v '%d' [($v) %s])", '%s %d ($ "%s")', '($set __OUTPUT_FILE__ "o.txt")k',
           '\xe9 ($add "\xe9" "\u0416")', '\\n \\ ($qs "\\n")', '($ (1 2) \\p.[$ ($p)', '($skip)\nz', '($s)($t s)', '($q \\p.p)', '\r\na\rb', '# coding: yupp\n"""($add 1 2)"""',
           '($ ($lazy 5))', '($ \\p:(q).(p))', '($let (a b) (1 2) [($a)($b)])', '($ 0 ? 1 | 2)', '($macro R ()($ ($R2)))($macro R2 () r\n  k)\n  ($R)', '($__TITLE__ "a")', '($ (1 2) \\p.($ (3 4) \\q.[($p)($q)\n]))',
           '($import { "($set ev 5)e" })($ev)', '($dec)', '($ (2 3) 1 f)', '  ($ [\n  a\n\n\n b])\n   \n\n\n', '/* ($add 1 2) */ // ($x\n', '($ { [1, 2] })', '($hex 255)', '($car (1))', '($f 1 2 3)',
           '($set q ($nosuch))($isatom ($ q))($isatom q)($repr ($nosuch))($ q)', '($isatom ($nosuch))($ ($nosuch) 1)', '($set f \\p\\q.[($p)-($q)])($ ($f 1) 2 \\p 3)',
           '($ [a ($set x 1)])($isatom x)', '($set __OUTPUT_FILE__ 5)($__OUTPUT_FILE__)', '($set f \\p.[($p)])($f 1 2)($f 1 \\p 2)', '($ ($unb [ a\n b]))', '($set (a b c) (1))($isatom b)($a)',
           '($let x ($nosuch) [($isatom x)($x)])', '($ (u v) \\w.[($w)($isatom w)])', '($ 3 (1 2))', '($set (a b) (1))($a)', '($ ``)', '($set _x ($typeof y))($_x)']


def check_all(case, ctx):
    """Every combination of the options."""
    i, out, red, stage = case
    text = SOURCES[i]
    os.chdir(ctx.dir())
    with open('lib.yu', 'w') as f:
        f.write('($set g \\p.[\n  <($p)>\n])\nlib\n')
    inp, outp = ('d/in.yu-c', 'd/in.c') if out == 'c' else ('in.py', 'o.py') if out == 'py' else (None, None)
    want = one(text, inp, outp, pp_reduce_emptiness=red)
    n = 0
    for quiet, level, tofile, tb, warn, br in itertools.product((False, True), (10, 20, 30, 40, 50) if TIER == 'thorough' else (10, 50), (None, 'trace') if stage else (None,), (0, 1, 2),
                                                                (True, False), (False, True)):
        o = dict(quiet=quiet, level=level, stage=stage, tofile=tofile, tb=tb, warn_unbound_application=warn, pp_browse=br)
        got = one(text, inp, outp, pp_reduce_emptiness=red, **o)
        n += 1
        if not same(want, got, br, red):
            raise Violation('options %r change the result (reduction %r)\n%s\n%r\n%r' % (o, red, text, want, got))
    ctx.count('combinations', n)
    return want


def tree(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith('.json'):
                continue
            with open(p, 'rb') as k:
                out[os.path.relpath(p, root)] = k.read().decode('utf8', 'replace')
    return out


CLI = [('ok', {'a.yu-c': 'a ($add 1 2)\n'}), ('error', {'a.yu-c': 'a ($add 1 "s")\n'}), ('ast', {'a.yu-c': 'a ($unb 1)\n ($add u 2)'}), ('two', {'a.yu-c': 'a\n\n\n', 'b.yu': '($'}), ('bytes', {'a.yu': b'\xff'}),
       ('passages', {'a.yu-c': '($__PASSAGE__ (1 2 3))($set __OUTPUT_FILE__ ($ "o%s.c" ($__PASSAGE__ (1 2 3))))'}), ('none', {}), ('python', {'p.yu-py': '# coding: yupp\nx = ($add 1 2)\n'}),
       ('block', {'a.yu-c': '($set f \\p.[\n    a ($p)\n  ])\n  x ($f 1)y\n'}), ('import', {'a.yu-c': '($import lib)($g 3)', 'lib.yu': '($set g \\p.[<($p)>])'})]


def check_cli(case, ctx):
    i, flags = case
    name, files = CLI[i]

    def go(args):
        root = ctx.dir()
        os.chdir(root)
        for k, v in files.items():
            with open(k, 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode('utf8'))
        names = sorted(x for x in files if x != 'lib.yu') or ['none.yu']
        rc, out, logs = h.cli(args + names)
        h.reset_shell()
        h.yugen.trace.set_current(0)
        del h.TRACE.rec[:]
        return rc, tree(root)
    want, got = go([]), go(list(flags))
    br = '--pp-browse' in flags
    if got[0] != want[0] or sorted(got[1]) != sorted(want[1]) or any(
            got[1][k] != want[1][k] and not (br and norm(got[1][k]) == norm(want[1][k])) for k in got[1]):
        raise Violation('the options %r change the run of %r\n%r\n%r' % (flags, files, want, got))
    return want[0], len(want[1])


def flagsets():
    out = []
    for q in ([], ['-q']):
        for lv in ([], ['-l', '2'], ['-l', '3'], ['-l', '4'], ['-l', '5']):
            for t in ([], ['-t', '1'], ['-t', '2'], ['-t', '3']):
                for b in ([], ['-b', '0'], ['-b', '2']):
                    for ty in ([], ['--type-file']):
                        for w in ([], ['-Wno-unbound']):
                            for br in ([], ['--pp-browse']):
                                out.append(q + lv + t + b + ty + w + br)
    return out


FLAGS = flagsets()
TOK = ['a', ' ', '\n', '($add 1 2)', '($set x 1)', '($x)', '($f 1)', '($b)', '\t', '($m)', '"s"', '(', ')', '[', ']']
PRE = '($set f \\p.[\n   ($p) k\n  z])($set b [\n  u\n\n ])($macro m ()  v\n w)'


def families(tier):
    t = tier == 'thorough'
    n = range(len(c19.IND) * len(c19.CONT))
    short = [x for x in FLAGS if len(x) <= 3] + [x for x in FLAGS if len(x) >= 7]
    return [
        Family('texts', Prod([PRE, PRE + '\n'] if t else [PRE], Map(list, Words(TOK, 4 if t else 3)), ['']), check_text, 'every text of tokens'),
        Family('lines', Prod(Words(n, 1, 1), range(len(c19.PLACE)), range(len(c19.REST)), c19.STYLES), check_layout, 'every line at every place'),
        Family('blocks', Prod(Words(n, 2, 2), range(len(c19.PLACE)) if t else [1, 3, 5], range(len(c19.REST)) if t else [0, 5], c19.STYLES if t else ['set', 'eol', 'macro']), check_layout,
               'every block of two lines'),
        Family('three', Prod(Words(n, 3, 3), [3, 5] if t else [3], [1, 3] if t else [1], ['set', 'function'] if t else ['set']), check_layout, 'every block of three lines'),
        Family('nested', Prod(range(len(c19.INNER)), c19.STYLE_IN, range(len(c19.OUTER)), c19.STYLES, range(len(c19.PLACE)) if t else [1, 3, 5, 9], [0, 3]), check_nested, 'a block inside a block'),
        Family('options', Prod(range(len(SOURCES)), ['', 'c', 'py'] if t else ['c'], [True, False], range(4)), check_all, 'every combination of the options', chunk=1),
        Family('command', Prod(range(len(CLI)), FLAGS if t else short), check_cli, 'the command with combinations of the options'),
    ]
