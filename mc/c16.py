"""C16: error reports name the file and line at fault."""
import os
import re

from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every faulty construct after every sequence of preceding lines inside every nesting of texts, functions, loops, macros '
        'and modules; the report must give the kind of failure and, as its last place, the file (or macro) and the number and '
        'text of the line where the marked position of the construct lies, and for macros the call and the definition; '
        'distinct = different reports')
ASSUMPTIONS = ['the end of a text counts as the end of its last line', 'the pointer under the line is not checked']
MARK = '\xa7'

# -- (kind, source with the mark at the position at fault); stop: parsing stops there whatever follows
STOP = [
    ('SyntaxError', '($set x\n \xa7)'), ('SyntaxError', '($set x 1\n \xa72)'), ('SyntaxError', '($\n \xa7)'), ('SyntaxError', '($set\n \xa75 1)'),
    ('SyntaxError', '($let x\n 1 \xa7)'), ('SyntaxError', '($macro\n \xa7)'), ('SyntaxError', '($macro M\n \xa75)'), ('SyntaxError', '($macro N (\n\xa7 5))'),
    ('SyntaxError', '($ \\p\xa7\n 5)'), ('SyntaxError', '($ \\p:\xa7\n)'), ('SyntaxError', '($ \\p.\n\xa7)'),
    ('SyntaxError', '($emit\n\xa7 5)'), ('SyntaxError', '($import\n\xa7)'), ('SyntaxError', '($emit x inc\n \xa75)'), ('SyntaxError', '($ 1\n ? \xa7)'),
    ('SyntaxError', '($ 1 ?\n 2 | \xa7)'), ('SyntaxError', '($set (a\n \xa75) 1)'), ('SyntaxError', 'a\n\xa7\x0c b\n'),
]
FILEERR = [('FileNotFoundError', '($import \xa7none)'), ('FileNotFoundError', '($import\n \xa7"none.yu")'), ('FileNotFoundError', '($import\n \xa7"none.py")'),
           ('ZeroDivisionError', '($import\n \xa7{ 1/0 })')]
OPEN = [('EOFError', '($! \n\n(a\n b\xa7'), ('EOFError', '(`a\n ($b)\n x\xa7'), ('EOFError', '($macro M (p)\n\n q\xa7'), ('SyntaxError', '($add 1 2\xa7'),
        ('SyntaxError', '($set x\xa7'), ('SyntaxError', '($ (1 2\xa7'), ('EOFError', '($ (1 2)\n [a\n b\xa7'), ('SyntaxError', '($ \\p\xa7'),
        ('SyntaxError', '($let x 1\xa7'), ('EOFError', '($import { 5\n\n\xa7'), ('SyntaxError', '($set x 1\xa7')]
EVAL = [
    ('TypeError', '(\xa7$add 1 "s")'), ('TypeError', '(\xa7$add 1\n "s"\n)'), ('ZeroDivisionError', '(\xa7$div 1 0)'), ('TypeError', '($no\xa7pe\n 1)'),
    ('TypeError', '($l\xa7en 1)'), ('ZeroDivisionError', '($ \xa7{ 1/0 })'), ('ZeroDivisionError', '($ \xa7{\n 1/0\n })'), ('ZeroDivisionError', '($set y\n \xa7{ 1/0 })\n($y)'),
    ('SyntaxError', '($ \xa7{ 1 +\n })'), ('TypeError', '($emit \xa7zz)'), ('TypeError', '($isat\xa7om 1 2)'), ('TypeError', '($sk\xa7ip 1)'),
    ('TypeError', '($__PASSA\xa7GE__\n 1)'), ('TypeError', '(\xa7$strlen)'), ('ZeroDivisionError', '($set g \\p.[\n (\xa7$div 1 p)\n])\n\n($g 0)'),
    ('ZeroDivisionError', '($ (1 2)\n \\p.[\n\n  (\xa7$div ($p) 0)])'), ('ZeroDivisionError', '($add 1\n  (\xa7$div 1 0)\n)'), ('ZeroDivisionError', '($ \\p.(p)\n (\xa7$div 1 0))'),
    ('ZeroDivisionError', '($ 1 ?\n  (\xa7$div 1 0) | 2)'), ('ZeroDivisionError', '($ (\xa7$div\n 1 0) ? 1 | 2)'), ('ZeroDivisionError', '($ ($ \\q.[\n\n(\xa7$div 1 q)\n]) 0)'),
    ('ZeroDivisionError', '($set h \\p:(\xa7$div 1 0).(p))\n($h)'), ('ZeroDivisionError', '($let u\n (\xa7$div 1 0)\n [($u)])'), ('ZeroDivisionError', '($set u (1\n (\xa7$div 1 0)\n))($u)'),
    ('ZeroDivisionError', '($set dv div)\n\n(\xa7$dv\n 1 0)'), ('TypeError', '($set av (\nadd div))\n($ av \\o.[\n\n (\xa7$o 1 "s")])'),
    ('ZeroDivisionError', '($set pa \\o.[\n(\xa7$o 1 0)])\n\n($pa\n div)'), ('ZeroDivisionError', '($let lv\n div [\n(\xa7$lv 1 0)])'),
    ('AttributeError', '(\xa7$reduce 1\n 2)'), ('ValueError', '(\xa7$atoi\n "q")'),
]
# -- lines before
PREFIX = ['x\n', '\n', 'a (b\n c)\n', '($set q\n 1)\n', '($!\n\n)', '($macro Q ()\n\n)\n', '($import "lib.yu")\n', '($ [\n\n])', '\x85\n', 'k\x85k\n', '\r\n', '\r',
          '($macro W (p)\n ($p)\n)($W 1)\n', '($import { "e\\ne" })\n', '"str"\n', "($ 'q')\n", '($add\n1\n2)\n', '   ', '/*\n\n*/', '($import lib)\n', '($set d \\p.[\n\n($p)])($d\n1)']
# -- what it is inside of
WRAP = {
    'top': '%s', 'text': '($ [%s])', 'lines': '($ [\n\n%s\n])\n', 'loop': '($ (1 2) \\p.[\n%s\n])', 'fn': '($set f \\p.[\n%s\n])\n($f 1)\n', 'fn2': '($set f \\p.[%s])\n\n\n($add 1 2)\n($f\n 1)\n',
    'let': '($let v 1 [\n%s])', 'arg': '($ \\p.(p)\n [%s])', 'set': '($set k [\n%s])\n\n($k)', 'cond': '($ [%s]\n ? 1 | 2)', 'second': 'z ($add 1 2) %s',
    'nested': '($set f \\p.[\n($p)])($set g \\p.[($f 1)\n%s])\n($g 2)',
}
MACRO = {'macro': ('($macro M \xa4(p)', '\n%s\n', ')\n\n($\xa5M 1)'), 'macro2': ('($macro\n M \xa4(p q)', ' ($p)\n\n %s', ')\n($ [\n\n($\xa5M\n 1\n 2)])'),
         'macrofn': ('($macro M \xa4(p)', '%s\n', ')($set f \\p.[\n ($\xa5M 1)])\n\n($f 2)')}

ARG = {'macro': '1', 'macro2': '1', 'macrofn': '1'}


def put(n, t):
    with open(n, 'wb') as f:
        f.write(t.encode('utf8'))


def place(text, ch):
    """(text without the mark, number of its line, the line)"""
    i = text.index(ch)
    text = text[:i] + text[i + 1:]
    uni = text.replace('\r\n', '\n').replace('\r', '\n')
    j = len(text[:i].replace('\r\n', '\n').replace('\r', '\n'))
    if j == len(uni) and uni.endswith('\n'):
        j -= 1
    n = uni.count('\n', 0, j)
    return text, n + 1, uni.split('\n')[n]


def drop(text, *chs):
    for c in chs:
        text = text.replace(c, '')
    return text


ENTRY = re.compile(r'^  (File|Macro) "(.*)", line (\d+)$')


def report(msg):
    """(kind, [(File or Macro, name, line, text)])"""
    lines = msg.split('\n')
    i = 0
    while i < len(lines) and not re.match(r'^\w+(\.\w+)*:? ?', lines[i]):
        i += 1
    # -- the traceback, if any, comes before the kind
    kinds = [x for x in lines if re.match(r'^[A-Za-z_.]+(Error|Exception|Interrupt|Iteration|Exit|Warning)\b', x)]
    start = max(k for k, x in enumerate(lines) if x in kinds) if kinds else 0
    out = []
    for k in range(start, len(lines)):
        m = ENTRY.match(lines[k])
        if m:
            out.append((m.group(1), m.group(2), int(m.group(3)), lines[k + 1][4:] if k + 1 < len(lines) else None))
    return (kinds[-1].split(':')[0] if kinds else None), out


def judge(o, kind, want, info):
    if o.ok or len(o.errors) != 1:
        raise Violation('%s\nno failure: %r %r' % (info, o.text, o.errors))
    k, got = report(o.errors[0])
    ok = k == kind and len(got) == len(want) and all(
        a[:3] == b[:3] and a[3].strip() == b[3].strip() for a, b in zip(got, want))
    if not ok:
        raise Violation('%s\nreport %r\ngot  %r\nwant %r' % (info, o.errors[0], (k, got), (kind, want)))
    return k, tuple(got)


def libs():
    put('lib.yu', 'l1\n($set lv 1)\n\nl2\n')


def check_plain(case, ctx):
    pre, kind, snippet, wraps, after, name = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    src = snippet
    for w in wraps:
        src = WRAP[w].replace('%s', src)
    src = ''.join(pre) + src + after
    text, line, tl = place(src, MARK)
    o = h.translate(text, name)
    return judge(o, kind, [('File', name or '<stdin>', line, tl)], repr(text))


def check_macro(case, ctx):
    pre, kind, snippet, w, where, modpre = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    head, body, tail = MACRO[w]
    body = body.replace('%s', snippet)
    mtext, mline, mtl = place(body, MARK)
    # -- the definition may be in a module
    define = head + mtext + tail[:1]
    call = tail[1:]
    if where:
        mod = ''.join(modpre) + define
        mod, dline, dtl = place(mod, '\xa4')
        put('def.yu', mod)
        main = ''.join(pre) + '($import "def.yu")\n' + call
        main, cline, ctl = place(main, '\xa5')
        dfile = 'def.yu'
    else:
        main = ''.join(pre) + define + ''.join(modpre) + call
        clean, dline, dtl = place(drop(main, '\xa5'), '\xa4')
        main, cline, ctl = place(drop(main, '\xa4'), '\xa5')
        dfile = 'in/x.yu-c'
    mtl = mtl.replace('($p)', ARG[w])  # -- the text of a macro is that of the call
    o = h.translate(main, 'in/x.yu-c')
    return judge(o, kind, [('File', 'in/x.yu-c', cline, ctl), ('File', dfile, dline, dtl), ('Macro', 'M', mline, mtl)], repr(main))


MARKS = '\xa4\xa5\xa6\xa8' + MARK
CALL_IN = ['%s', '($ [\n %s])', '($ (1 2) \\u.[\n\n%s])', '($set f \\u.[\n%s])\n\n($f 1)']


def at(text, mark):
    return place(drop(text, *[c for c in MARKS if c != mark]), mark)[1:]


def check_macro2(case, ctx):
    """In a macro that another macro calls, defined by it or before it."""
    pre, kind, snippet, where, inpre, callin = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    ntext = '\n' + snippet + '\n'
    ndef = '($macro \n\xa6N (q)' + ntext + ')\n'
    mtext = '\n' + ''.join(inpre) + (ndef if where == 'in' else '') + CALL_IN[callin].replace('%s', '($\xa8N 1)')
    mdef = '($macro M \xa4(p)' + mtext + ')\n'
    mod = ''
    if where == 'in':
        main = mdef
    elif where == 'top':
        main = ndef + mdef
    else:
        mod = '\n' + ndef
        main = '($import "def.yu")\n' + mdef
    put('def.yu', drop(mod, *MARKS))
    main = ''.join(pre) + main + '($ [\n\n($\xa5M 1)])'
    fn = 'in/x.yu-c'
    in_m = [('File', fn) + at(main, '\xa5'), ('File', fn) + at(main, '\xa4')]
    want = in_m + [('Macro', 'M') + at(mtext, '\xa8')]
    if where == 'in':
        want += in_m + [('Macro', 'M') + at(mtext, '\xa6')]
    elif where == 'top':
        want += [('File', fn) + at(main, '\xa6')]
    else:
        want += [('File', 'def.yu') + at(mod, '\xa6')]
    want += [('Macro', 'N') + at(ntext, MARK)]
    # -- the text of a macro is that of the call
    want = [x[:3] + (x[3].replace('($p)', '1') if x[1] == 'M' or x[1] == 'N' and where == 'in' else x[3],) for x in want]
    o = h.translate(drop(main, *MARKS), fn)
    return judge(o, kind, want, repr(drop(main, *MARKS)))


def check_module(case, ctx):
    """In a module, in a module of a module, in a function of a module called by the input."""
    pre, kind, snippet, how, mainpre = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    mod = ''.join(pre) + snippet
    name = 'm.yu'
    if how == 'fn':
        mod = ''.join(pre) + '($set mf \\p.[\n' + snippet + '])\n'
    mod, line, tl = place(mod, MARK)
    main = ''.join(mainpre)
    if how == 'sub':
        name = 's/m.yu'
        os.mkdir('s')
        main += '($import "s/m.yu")\n'
    elif how == 'dir':
        os.mkdir('lib1')
        name = 'lib1/m.yu'
        main += '($import m)\n'
    elif how == 'nested':
        put('o.yu', '\n\n($import m)\n')
        main += '($import o)'
    elif how == 'twice':
        put('o.yu', '\n\n($import lib)\n($import "m.yu")\n')
        main += '($import "o.yu")($import "lib.yu")'
    elif how == 'fn':
        main += '($import m)\n\n\n($mf 1)'
    else:
        main += '($import m)'
    put(name, mod)
    o = h.translate(main, 'x.yu-c', directory=['lib1'] if how == 'dir' else [])
    return judge(o, kind, [('File', name, line, tl)], repr((main, mod)))


def check_eval(case, ctx):
    """In the text an expression yields: the place of the import, then the line of the text."""
    pre, kind, snippet, inner = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    text, line, tl = place(''.join(inner) + snippet, MARK)
    lit = text.replace('\\', '\\\\').replace('\n', '\\n').replace('"', '\\"')
    if '\r' in lit or '\x85' in lit or '"' in text:
        return None
    main, iline, itl = place(''.join(pre) + '($import \xa5{ "' + lit + '" })', '\xa5')
    o = h.translate(main, 'x.yu-c')
    k, got = report(o.errors[0]) if o.errors else (None, [])
    if (o.ok or k != kind or len(got) != 2 or got[0][:3] != ('File', 'x.yu-c', iline) or got[1][0] != 'Macro'
            or got[1][2] != line or got[1][3].strip() != tl.strip()):
        raise Violation('%r\nreport %r\nwant line %d, then line %d %r' % (main, o.errors, iline, line, tl))
    return k, tuple(x[2] for x in got)


def check_warn(case, ctx):
    """The warning about an unbound atom in place of a function."""
    pre, wraps = case
    root = ctx.dir()
    os.chdir(root)
    libs()
    src = '($unb\xa7ound)'
    for w in wraps:
        src = WRAP[w].replace('%s', src)
    text, line, tl = place(''.join(pre) + src, MARK)
    o = h.translate(text, 'x.yu-c')
    ws = [w for w in o.warnings if 'unbound application' in w or 'application of unbound' in w]
    if len(ws) < 1:
        return None
    for w in ws:
        m = [ENTRY.match(x) for x in w.split('\n')]
        at = [(x.group(2), int(x.group(3))) for x in m if x]
        if at != [('x.yu-c', line)]:
            raise Violation('%r\nwarning %r\nwant line %d' % (text, w, line))
    return line


def families(tier):
    t = tier == 'thorough'
    pre1 = Map(list, Words(PREFIX, 1))
    pre2 = Map(list, Words(PREFIX, 3 if t else 2))
    few = [[], ['\n'], ['($set q\n 1)\n', 'x\n'], ['($import "lib.yu")\n', '\r\n'], ['\x85\n', '($macro W (p)\n ($p)\n)($W 1)\n'], ['\x85\x85\n', '($!\n\n)']]
    wraps = sorted(WRAP)
    wr = Map(list, Words(wraps, 2))
    wr1 = Map(list, Words(wraps, 1))

    def flat(x):
        pre, (kind, sn), w, after, name = x
        return [pre, kind, sn, w, after, name]

    def flat4(x):
        return [x[0], x[1][0], x[1][1]] + list(x[2:])

    names = ['d/x.yu-c', None, '0', 'x.yu-py', '5.yu']
    go = STOP + FILEERR + EVAL
    return [
        Family('lines', Map(flat, Prod(pre2, go, [[]], ['', '\nafter\n'] if t else ['\n'], ['d/x.yu-c'])), check_plain, 'every fault after every lines'),
        Family('open', Map(flat, Prod(pre2, OPEN, [[]], ['', '\n'] if t else ['', '\n'], ['d/x.yu-c'])), check_plain, 'every construct that is not closed'),
        Family('wraps', Map(flat, Prod(few if t else few[:4], go, wr, ['', '\nafter\n'] if t else ['\n'], ['x.yu-c'])), check_plain, 'every fault inside every two constructs'),
        Family('wrapsopen', Map(flat, Prod(few, OPEN[3:6], Map(list, Words(['text', 'fn', 'loop', 'arg'], 0)), [''], ['x.yu-c'])), check_plain, 'unclosed in constructs'),
        Family('names', Map(flat, Prod(few, go, wr1, ['\n'], names)), check_plain, 'every name of the input'),
        Family('macros', Map(flat4, Prod(pre1 if t else few, EVAL + STOP[:-1] + FILEERR, sorted(MACRO), [0, 1], pre1 if t else few)), check_macro, 'every fault inside a macro'),
        Family('macros2', Map(flat4, Prod(pre1 if t else few, EVAL + STOP[:-1] + FILEERR, ['in', 'top', 'module'], few, range(len(CALL_IN)))), check_macro2,
               'every fault inside a macro called by a macro'),
        Family('modules', Map(flat4, Prod(pre1, go, ['plain', 'sub', 'dir', 'nested', 'twice', 'fn'], few if t else few[:3])), check_module, 'every fault inside a module'),
        Family('moduleopen', Map(flat4, Prod(pre1, OPEN, ['plain', 'sub', 'dir', 'nested', 'twice'], few if t else few[:3])), check_module, 'modules that are not closed'),
        Family('evals', Map(flat4, Prod(pre1 if t else few, EVAL + STOP, few if t else few[:4])), check_eval, 'every fault inside an imported expression'),
        Family('warnings', Prod(pre2, wr if t else wr1), check_warn, 'warnings'),
    ]
