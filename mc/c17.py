"""C17: the browse map leads from the output to the source."""
import json
import os
import sys
import types

from engine import Family, Map, Prod, REPO, Sum, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every sequence of text pieces, constructs, macros and modules whose copied characters are all different, laid out with '
        'every indent and blank lines, translated with the recording; each copied character of the output is looked up the way '
        'the plug-in does it and must lead to the place it was copied from; distinct = different (output, record) pairs')
ASSUMPTIONS = ['characters the program computes (numbers, results of functions) are not copied and may lead anywhere',
               'text of a macro leads to the definition of the macro, by way of its call']
# -- characters no construct uses
POOL = [chr(c) for c in range(0xc0, 0x100)] + [chr(c) for c in range(0xa1, 0xc0) if c not in (0xa4, 0xa5, 0xa7, 0xad)]
MAC = {'m': '($macro m (p) %($p)%\n   %)', 'k': '($macro k ()%\n\n%)', 'w': '($macro w (p)  %($m ($p))% ($k))', 'v': '($macro v ()  %\n\t)'}


class Source(object):
    """A template made into a source: @ copied, % copied within a macro."""

    def __init__(self):
        self.at = {}        # -- character: (file, position)
        self.mac = {}       # -- character: macro
        self.free = list(POOL)

    def fill(self, template, name):
        out = []
        macro = None
        for i, c in enumerate(template):
            if c == '@':
                x = self.free.pop(0)
                self.at[x] = (name, len(out))
                out.append(x)
            elif c == '%':
                x = self.free.pop(0)
                # -- the macro whose definition comes last before
                j = template.rindex('($macro ', 0, i) + 8
                self.mac[x] = (template[j], name, j)
                out.append(x)
            else:
                out.append(c)
        return ''.join(out)


def bisect(a, x):
    lo, hi = 0, len(a)
    while lo < hi:
        mid = (lo + hi) // 2
        if x < a[mid][0]:
            hi = mid
        else:
            lo = mid + 1
    return lo


def lookup(rec, pos):
    """[(file, position)]: the jumps of the plug-in, the last one is the text itself."""
    browse, offset, files = rec['browse'], rec['offset'], rec['files']
    i = bisect(offset, pos)
    raw = pos + (offset[i - 1][1] if i else 0)
    i = bisect(browse, raw)
    if not i:
        return []
    found = browse[i - 1][0]
    chain = []
    j = i - 1
    while j >= 0 and browse[j][0] == found:
        chain.insert(0, (files[browse[j][1]], browse[j][2]))
        j -= 1
    f, p = chain[-1]
    if len(chain) == 1 and p >= 0:
        chain[-1] = (f, p + raw - found)
    return [(f, abs(p)) for f, p in chain]


def judge(src, text, rec, calls, exact, info, quiet=False):
    if len(set(rec['files'])) != len(rec['files']):
        raise Violation('%s\na file is named twice %r' % (info, rec['files']))
    for name in ('browse', 'offset'):
        p = [x[0] for x in rec[name]]
        if any(a > b for a, b in zip(p, p[1:])) or (p and p[0] < 0):
            raise Violation('%s\n%s not in order %r' % (info, name, rec[name]))
    if any(not 0 <= x[1] < len(rec['files']) for x in rec['browse']):
        raise Violation('%s\na reference to no file %r' % (info, rec))
    nth = {}
    for i, c in enumerate(text):
        if c in src.at:
            got = lookup(rec, i)
            if got != [src.at[c]]:
                raise Violation('%s\noutput %r\n%r at %d leads to %r, not to %r\n%r' % (info, text, c, i, got, src.at[c], rec))
        elif c in src.mac:
            m, f, p = src.mac[c]
            got = lookup(rec, i)
            if not got or got[-1] != (f, p):
                raise Violation('%s\noutput %r\n%r at %d leads to %r, not to the macro %s at %r\n%r' % (info, text, c, i, got, m, (f, p), rec))
            if len(got) < 2 or got[-2] not in calls.get(m, ()):
                raise Violation('%s\noutput %r\n%r at %d of the macro %s comes by way of %r, not of a call at %r\n%r' % (
                    info, text, c, i, m, got[:-1], calls.get(m), rec))
            n = nth[c] = nth.get(c, -1) + 1
            if exact and n < len(calls[m]) and got[-2] != calls[m][n]:
                raise Violation('%s\noutput %r\n%r at %d of the macro %s comes by way of %r, not of the call at %r\n%r' % (
                    info, text, c, i, m, got[:-1], calls[m][n], rec))


def sites(text, name):
    """{macro: [places of calls]}; a call inside a macro text is that of the definition."""
    out = {}
    i = text.find('($')
    while i >= 0:
        m = text[i + 2:i + 3]
        if m in MAC and text[i + 3:i + 4] in (' ', ')', ','):
            # -- a call inside the text of a macro is known by the definition of that macro
            j = text.rfind('($macro w ', 0, i)
            inside = j >= 0 and i < text.index('($k))', j) + 4
            out.setdefault(m, []).append((name, j + 8 if inside else i + 2))
        i = text.find('($', i + 1)
    return out


def translate(text, name, **cfg):
    o = h.translate(text, name, pp_browse=True, **cfg)
    if not o.ok:
        raise Violation('%r fails: %r' % (text, o.errors))
    t = o.text
    rec = json.loads(json.dumps({'files': sorted(h.yugen.RESULT.files, key=h.yugen.RESULT.files.get), 'browse': t.browse, 'offset': t.offset}))
    return str(t), rec


def prelude(pieces):
    """Definitions the pieces need."""
    s = ''.join(pieces)
    need = set()
    todo = [s]
    while todo:
        x = todo.pop()
        for m in MAC:
            if '($%s ' % m in x or '($%s)' % m in x or '($%s,' % m in x:
                if m not in need:
                    need.add(m)
                    todo.append(MAC[m])
    out = ''.join(MAC[m] for m in sorted(need))
    for n, d in sorted(DEFS.items()):
        if '($%s' % n in s or ' %s)' % n in s:
            out += d
    return out


DEFS = {'f': '($set f \\p.[@($p)@\n  @])', 'g': '($set g \\p.[($p)@($p)])', 'b': '($set b [@@\n   @])', 'e': '($set e [  @\n    @\n\n  @\n ])', 'h': '($set h \\p.[\n  @\n    ($p)\n ])',
        'd': '($set d [\n\t\t@\n\t @\n\t])'}
PIECES = ['@@', ' ', '\n', '\n\n\n', '  @', '\t@', '($b)', '($f [@@])', '($f 12)', '($g [@\n @])', '($ (1 2) \\q.[@\n  @\n])', '($e)', '($h b)', '($h e)',
          '($m 1)', '($m,,x)', '($w 2)', '($k)', '($let u [@] [@($u)($u)@])', '($ 1 ? [@] | [@])', '"@"', "'@'", '($set z [@\n @])($z)', '($add 1 2)', '($ [@ @])', '($!@)',
          '($ ($lazy [@@]))', '($import lib)', '($d)', '($SPACE)@', '($g ($h e))', '($v)', '($import { "" })', '($ (`@ @))', '(@)', '[@]', '($ \\x.\\y.[@($y)@($x)] [@] [@])', '($ "q%s" [@])',
          '($set o [@\n @])($emit o)($emit o)($o)']
LIB = '@@\n($set y 1)\n  @\n\n\n@ ($b0)'


def write(name, text):
    with open(name, 'wb') as f:
        f.write(text.encode('utf8'))


def check_pieces(case, ctx):
    pieces, cfgs = case
    os.chdir(ctx.scratch)
    s = Source()
    pre = prelude(pieces)
    body = pre + '@' + ''.join(pieces) + '\n@'
    lib = None
    if '($import lib)' in body:
        lib = s.fill('($set b0 [@\n @])' + LIB, './lib.yu')
        write('lib.yu', lib)
    # -- the marks of "%s" are no marks
    text = s.fill(body.replace('%s', '\x01s'), 'd/in.yu-c').replace('\x01', '%')
    calls = sites(text, 'd/in.yu-c')
    if any('\\q.' in p for p in pieces):
        exact = False
    else:
        exact = all(len(v) == 1 or True for v in calls.values()) and '($w' not in text
    out = None
    for cfg in cfgs:
        t, rec = translate(text, 'd/in.yu-c', **dict(cfg))
        if lib is not None:
            rec['files'] = ['./lib.yu' if os.path.normpath(x) == 'lib.yu' else x for x in rec['files']]
        if '($macro w' in text:
            exact = False
        judge(s, t, rec, calls, exact, repr(text), True)
        out = out or (t, len(rec['browse']), len(rec['offset']))
    return out


IND = ['', ' ', '   ', '\t', ' \t']
CONT = ['@', '', '@ @', '($SPACE)@', ' ', '($c)', '($c) @']
PLACE = ['', '  ', '\n', '\n  ', '@ ', '\n  @ ', '\n\t', '\n($set q 1)', '\n ($! c) ', '\n \t', '   @\n\n\n   ']
STYLES = ['set', 'eol', 'function', 'inline', 'twice', 'loop', 'through', 'arg', 'macro']
DEF = {'set': '($set b0 [%s])', 'eol': '($set b0 ]\n%s\n[)', 'function': '($set b0 \\p.[%s])', 'twice': '($set b0 [%s])', 'loop': '($set b0 \\p.[%s])',
       'through': '($set b0 [%s])($set f0 \\x.[@ ($x)@])', 'arg': '($set f0 \\x.[@\n    ($x)@])', 'inline': '', 'macro': '($macro m ()\xa4)'}
CALL = {'set': '($b0)', 'eol': '($b0)', 'function': '($b0 1)', 'twice': '($ (b0 b0))', 'loop': '($ (1 2) b0)', 'through': '($f0 b0)', 'arg': '($f0 [%s])', 'inline': '($ [%s])',
        'macro': '($m)'}


def line(i):
    a, b = divmod(i, len(CONT))
    return IND[a] + CONT[b]


NL = len(IND) * len(CONT)


def check_layout(case, ctx):
    lines, place, style, tail = case
    block = '\n'.join(line(i) for i in lines)
    if style in ('eol', 'inline', 'macro', 'arg') and not block.strip():
        return None
    d, c = DEF[style], CALL[style]
    head = '($set c [@\n  @])' if '($c)' in block else ''
    if style == 'macro':
        d = d.replace('\xa4', block.replace('@', '%'))
    else:
        d, c = d.replace('%s', block), c.replace('%s', block)
    s = Source()
    body = head + d + '.' + PLACE[place] + c + tail
    text = s.fill(body, 'in.yu-c')
    # -- a value inside a macro keeps the place of the value
    out = None
    for cfg in ({}, {'pp_reduce_emptiness': False}, {'pp_trim_app_indent': False}):
        t, rec = translate(text, 'in.yu-c', **cfg)
        judge(s, t, rec, sites(text, 'in.yu-c'), style != 'macro' or '($c)' not in block, repr(text))
        out = out or (t, len(rec['browse']), len(rec['offset']))
    return out


def check_nested(case, ctx):
    inner, outer, place, how = case
    text = '($set n0 [%s])' % INNER[inner] if how != 'param' else ''
    body = OUTER[outer]
    if how == 'param':
        text += '($set o0 \\p.[%s]).' % body.replace('^', '($p)')
        call = '($o0 [%s])' % INNER[inner]
    elif how == 'let':
        text += '.'
        call = '($let o0 [%s] [@($o0)\n ($o0)])' % body.replace('^', '($n0)')
    elif how == 'list':
        text += '($set o0 \\p.[%s]).' % body.replace('^', '($p)')
        call = '($ (n0 [@] n0) o0)'
    elif how == 'double':
        text += '($set o0 [%s])($set o1 [ @\n   ($o0)\n  @($o0)]).' % body.replace('^', '($n0)')
        call = '($o1)'
    else:
        text += '($set o0 [%s]).' % body.replace('^', '($n0)')
        call = '($o0)'
    s = Source()
    text = s.fill(text + PLACE[place] + call + '@\n @', 'in.yu-c')
    out = None
    for cfg in ({}, {'pp_reduce_emptiness': False}, {'pp_trim_app_indent': False}):
        t, rec = translate(text, 'in.yu-c', **cfg)
        judge(s, t, rec, {}, True, repr(text))
        out = out or (t, len(rec['browse']), len(rec['offset']))
    return out


INNER = ['@', '@\n @', '  @\n@', '\n  @\n\n   @\n', '\t@\n\t@', '  @\n    @\n  ', '', '\n\n\n', '   ', '@\n\n\n\n@']
OUTER = ['^', '  ^\n @', '@\n  ^\n  @', '\n    ^@\n  @', '  @\n    @ ^\n  @', '\n  ($set w 3)^\n  @', '\n ($! c)   ^\n   @\n', '\n\t^\n\t@^', '    ^\n\n\n  ^', '\n   @\n  ^\n ']


# -- the plug-in itself, with stand-ins for the editor
class Region(object):
    def __init__(self, a, b=None):
        self.a = a

    def begin(self):
        return self.a

    def empty(self):
        return True


class Sel(list):
    def add(self, r):
        self.append(r)

    def clear(self):
        del self[:]


class Window(object):
    def __init__(self, root):
        self.root = root
        self.went = []

    def folders(self):
        return [self.root]

    def open_file(self, fn):
        v = View(fn, self)
        self.went.append(v)
        return v


class View(object):
    def __init__(self, fn, window):
        self.fn, self.win, self.s = fn, window, Sel()

    def file_name(self):
        return self.fn

    def window(self):
        return self.win

    def sel(self):
        return self.s

    def __getattr__(self, name):
        return lambda *a: None


CODE = {}


def plugin():
    p = os.path.join(REPO, 'sublime_text', 'Data', 'Packages', 'yupp', 'yupp.py')
    sub = types.ModuleType('sublime')
    sub.Region, sub.HIDDEN, sub.PERSISTENT = Region, 0, 0
    sp = types.ModuleType('sublime_plugin')

    class Command(object):
        def __init__(self, view):
            self.view = view
    sp.EventListener, sp.TextCommand = object, Command
    sys.modules['sublime'], sys.modules['sublime_plugin'] = sub, sp
    ns = {'__name__': 'yupp_plugin', 'xrange': range}
    if p not in CODE:
        with open(p) as f:
            CODE[p] = compile(f.read(), p, 'exec')
    exec(CODE[p], ns)
    return ns


def check_plugin(case, ctx):
    """The file written by the command, read by the plug-in: every character, and the way back."""
    pieces, = case
    root = ctx.dir()
    os.chdir(root)
    s = Source()
    body = prelude(pieces) + '@' + ''.join(pieces) + '\n@'
    if '($import lib)' in body:
        write('lib.yu', s.fill('($set b0 [@\n @])' + LIB, 'lib.yu'))
    text = s.fill(body.replace('%s', '\x01s'), 'in.yu-c').replace('\x01', '%')
    write('in.yu-c', text)
    rc, out, logs = h.cli(['-q', '--pp-browse', '--no-read-only', 'in.yu-c'])
    h.reset_shell()
    if rc:
        raise Violation('%r fails: %r' % (text, logs))
    with open('in.c.json') as f:
        rec = json.load(f)
    with open('in.c', encoding='utf8') as f:
        t = f.read()
    for i, c in enumerate(t):
        if c not in s.at and c not in s.mac:
            continue
        ns = plugin()
        fruit = os.path.join(root, 'in.c')
        ns['open_file'](fruit)
        w = Window(root)
        v = View(fruit, w)
        v.s.append(Region(i))
        ns['GotoOriginCommand'](v).run(None)
        want = lookup(rec, i)[0]    # -- it jumps to the call first
        want = (os.path.join(root, os.path.normpath(want[0])), want[1])
        if c in s.at:
            want = (os.path.join(root, s.at[c][0]), s.at[c][1])
        got = (w.went[-1].fn, w.went[-1].s[0].a) if w.went else None
        if got != want:
            raise Violation('%r\noutput %r\nthe plug-in jumps from %r at %d to %r, not to %r\n%r' % (text, t, c, i, got, want, rec))
        # -- and back again
        n = 0
        while w.went[-1].fn != fruit and n < 6:
            b = View(w.went[-1].fn, w)
            b.s.append(Region(w.went[-1].s[0].a))
            ns['GotoOriginCommand'](b).run(None)
            n += 1
            if c in s.at:
                break
        if c in s.at and (w.went[-1].fn, w.went[-1].s[0].a) != (fruit, i):
            raise Violation('%r\nthe way back from %r leads to %r' % (text, c, (w.went[-1].fn, w.went[-1].s[0].a)))
    return t


def check_runs(case, ctx):
    """Several files and passages in one run: each output has the record of its own sources."""
    kinds, = case
    root = ctx.dir()
    os.chdir(root)
    want = {}
    args = []
    lib = Source()
    ltext = lib.fill('($set b0 [@\n @])@@\n  @', 'lib.yu')
    write('lib.yu', ltext)
    for n, k in enumerate(kinds):
        s = Source()
        s.free = POOL[len(lib.at):]
        fn = 'f%d.yu-c' % n
        outs = ['f%d.c' % n]
        body = {'plain': '@@\n @', 'lib': '@($import "lib.yu")@ ($b0)@', 'macro': MAC['m'] + '@($m 1)@', 'fail': '@($add 1 "s")', 'empty': '',
                'twice': '($set __OUTPUT_FILE__ ($__PASSAGE__ ("p%d_1.c" "p%d_2.c")))@($__PASSAGE__ ([@] [@\n @]))@\n @' % (n, n),
                'libtwice': '($set __OUTPUT_FILE__ ($__PASSAGE__ ("q%d_1.c" "q%d_2.c")))@\n @($__PASSAGE__ ([@] [@@]))@($import "lib.yu")' % (n, n)}[k]
        text = s.fill(body, fn)
        write(fn, text)
        args.append(fn)
        if k == 'fail':
            outs = []
        elif k in ('twice', 'libtwice'):
            outs = ['%s%d_%d.c' % ('p' if k == 'twice' else 'q', n, i) for i in (1, 2)]
        if 'lib' in k:
            s.at.update(lib.at)
        for o in outs:
            want[o] = (s, text, {fn} | ({'lib.yu'} if 'lib' in k else set()), fn, k)
    rc, out, logs = h.cli(['-q', '--pp-browse', '--no-read-only'] + args)
    h.reset_shell()
    got = sorted(x for x in os.listdir('.') if x.endswith('.json'))
    if got != sorted(x + '.json' for x in want):
        raise Violation('%r\nrecords %r, outputs %r\n%r' % (kinds, got, sorted(want), logs))
    for o, (s, text, files, fn, k) in sorted(want.items()):
        with open(o + '.json') as f:
            rec = json.load(f)
        with open(o, encoding='utf8') as f:
            t = f.read()
        rec['files'] = [os.path.normpath(x) for x in rec['files']]
        judge(s, t, rec, sites(text, fn), True, repr((kinds, o, text)))
        if not set(rec['files']) <= files:
            raise Violation('%r\nthe record of %s names %r' % (kinds, o, rec['files']))
    return tuple(kinds), rc


def families(tier):
    t = tier == 'thorough'
    cfgs = [[{}, {'pp_reduce_emptiness': False}, {'pp_trim_app_indent': False}]]
    n = range(NL)
    return [
        Family('pieces', Prod(Map(list, Words(PIECES, 3 if t else 2)), cfgs), check_pieces, 'every sequence of pieces and constructs'),
        Family('core', Prod(Map(list, Words(['\n', '  ', '@', '($b)', '($e)', '($h e)', '($m 1)', '\n\n\n', '($k)', '($d)'], 5 if t else 4, 3)), cfgs), check_pieces, 'longer sequences'),
        Family('line', Prod(Words(n, 1, 1), range(len(PLACE)), STYLES, ['', '@', '\n@', ' \n  @']), check_layout, 'every line as a block at every place'),
        Family('blocks', Prod(Words(n, 2, 2), range(len(PLACE)) if t else [0, 3, 5, 8, 10], STYLES, ['@'] if not t else ['', '@', '\n @']), check_layout, 'every block of two lines'),
        Family('three', Prod(Words(n, 3, 3), [3, 5] if t else [3], ['set', 'macro', 'through'] if t else ['set'], ['\n@']), check_layout, 'every block of three lines'),
        Family('nested', Prod(range(len(INNER)), range(len(OUTER)), range(len(PLACE)), ['plain', 'param', 'let', 'list', 'double']), check_nested, 'a block inside a block'),
        Family('plugin', Prod(Map(list, Words(PIECES, 2))), check_plugin, 'the record as the plug-in reads it'),
        Family('runs', Prod(Map(list, Words(['plain', 'lib', 'macro', 'fail', 'empty', 'twice', 'libtwice'], 4 if t else 3, 1))), check_runs, 'several sources and passages in one run'),
    ]
