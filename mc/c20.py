"""C20: blank lines are reduced as configured and nothing else is."""
from engine import Family, Map, Prod, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every text and program over an alphabet of white space, line ends and constructs up to a length, translated with '
        'the reduction on and off; distinct = different outputs')
ASSUMPTIONS = ['an output always ends with a line end when the clean-up is on']
WS = ' \t\r\f\v'


def clean(t):
    """Lines without trailing white space, each run of blank ones made one."""
    lines = t.split('\n')
    if len(lines) > 1 and lines[-1] == '':
        lines.pop()
    out = []
    for x in lines:
        x = x.rstrip(WS)
        if x == '' and out and out[-1] == '':
            continue
        out.append(x)
    return '\n'.join(out) + '\n'


def unify(t):
    return t.replace('\r\n', '\n').replace('\r', '\n')


def invariants(src, raw, got):
    lines = got.split('\n')[:-1]
    if not got.endswith('\n'):
        raise Violation('no line end at the end\n%r -> %r' % (src, got))
    for a, b in zip(lines, lines[1:]):
        if a == b == '':
            raise Violation('two blank lines\n%r -> %r' % (src, got))
    for x in lines:
        if x[-1:] in WS and x:
            raise Violation('white space at a line end\n%r -> %r' % (src, got))
    if [x for x in lines if x] != [x.rstrip(WS) for x in raw.split('\n') if x.strip(WS)]:
        raise Violation('lines lost, added or changed\n%r (%r) -> %r' % (src, raw, got))
    if got != clean(raw):
        raise Violation('blank lines are not what is configured\n%r -> %r, expected %r' % (src, got, clean(raw)))


def run(src, **cfg):
    o = h.translate(src, **cfg)
    if not o.ok:
        raise Violation('translation fails\n%r %s' % (src, o.errors))
    return str(o.text)


def check_text(case, ctx):
    src = ''.join(case)
    off = run(src, pp_reduce_emptiness=False)
    if off != unify(src):
        raise Violation('changed with the clean-up off\n%r -> %r' % (src, off))
    on = run(src)
    invariants(src, off, on)
    again = run(on)
    if again != on:
        raise Violation('not idempotent\n%r -> %r -> %r' % (src, on, again))
    return on


PRE = '($set e [])($set b [x\n\n \ny])($set w [ \n\t\n])($set (l s) ((1 2) "s \t"))($macro m ()\n\n)($set f \\p.[($p) \n\n])'


def check_program(case, ctx):
    src = PRE + '.' + ''.join(case)
    off = run(src, pp_reduce_emptiness=False)
    on = run(src)
    invariants(src, off, on)
    br = run(src, pp_browse=True)
    if clean(br) != on or '\n\n\n' in br:
        raise Violation('blank lines differ when browsing\n%r -> %r, expected %r' % (src, br, on))
    again = run(on)
    if again != on:
        raise Violation('not idempotent\n%r -> %r -> %r' % (src, on, again))
    return on


STEADY = {'a': 'a', ' ': ' ', '\n': '\n', '\t': '\t', '($SPACE)': '\ufdd0', '($TAB)': '\ufdd1', '($ [b ($SPACE)])': 'b \ufdd0', '($sp 2)': '\ufdd0\ufdd0',
          '($ [])': '', '($tt)': 'c\ufdd1'}


def check_steady(case, ctx):
    """Blanks that are asked for are not white space to clean up."""
    src = '($set sp \\n.[($ ($range n) \\i.[($SPACE)])])($set tt [c($TAB)]).' + ''.join(case)
    raw = '.' + ''.join(STEADY[x] for x in case)
    want = clean(raw).replace('\ufdd0', ' ').replace('\ufdd1', '\t')
    on = run(src)
    if on != want:
        raise Violation('%r -> %r, expected %r' % (src, on, want))
    off = run(src, pp_reduce_emptiness=False)
    if off != raw.replace('\ufdd0', ' ').replace('\ufdd1', '\t'):
        raise Violation('changed with the clean-up off\n%r -> %r' % (src, off))
    return on


def families(tier):
    t = tier == 'thorough'
    ch = ['a', ' ', '\t', '\n', '\r', 'b  c', '\xa0', '\x85']
    pr = ['a', ' ', '\n', '\t', '($e)', '($b)', '($w)', '($set e (` ))', '($! c)', '($ (``))', '($m)', '($f 1)', '($f [])',
          '($chr 32)', '($chr 10)', '($s)', '"q "', '($ (b e b) f)']
    return [
        Family('texts', Words(ch, 7 if t else 6), check_text, 'every text of white space and line ends'),
        Family('long', Words(['a', ' ', '\n'], 12 if t else 10), check_text, 'longer ones'),
        Family('steady', Words(sorted(STEADY), 6 if t else 4), check_steady, 'blanks and tabs asked for'),
        Family('programs', Words(pr, 5 if t else 4), check_program, 'programs whose constructs give white space'),
        Family('blocks', Map(lambda c: [c[0]] + c[1], Prod(['', 'a', '\n'], Words(['($b)', '($w)', '\n', ' ', '($e)', '($f e)'], 7 if t else 6, 4))),
               check_program, 'longer sequences of blank pieces'),
    ]
