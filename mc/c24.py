"""C24: functions of the bundled standard and header libraries return what their documentation says."""
import os
import re
import subprocess

from engine import REPO, Family, Map, Prod, Sum, Violation, Words
import harness as h
import refeval as r

LEVEL = 'exploration'
RULE = ('every documented library function and macro applied to every arrangement of small arguments, histories of definitions, every '
        'pair of uses one after the other, every header of up to three declarations as each of its users sees it; against models '
        'written from the documentation; distinct = different outputs')
ASSUMPTIONS = ['rows of a dictionary are as long as its list of names',
               'headers are judged by what gcc -E makes of them in C and C++, with and without the macro that says this is the implementation',
               'layout (blank lines, indentation of macros) is judged by C19']

LIB = os.path.join(REPO, 'lib')
HEAD = '($import stdlib)\n'


def translate(text, base='mod.yu-c', out='mod.c'):
    return h.translate(text, base, out, directory=[LIB])


def squeeze(t):
    """Lines without empty ones and without white space at their ends."""
    return '\n'.join(x.strip() for x in str(t).replace('\r\n', '\n').split('\n') if x.strip())


def agree(text, want, ctx, base='mod.yu-c', out='mod.c'):
    o = translate(text, base, out)
    if not o.ok or o.errors:
        raise Violation('translation fails, expected %r\nprogram: %s\nreported: %s' % (want, text, o.errors))
    got = squeeze(o.text)
    if got != squeeze(want):
        raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %r' % (text, squeeze(want), got))
    return got


# --------------------------------------------------------------------------- conditionals and unfolding
CONDS = ['0', '1', '-1', '0.0', '2.5', '()', '(0)', '(1 0)', '[]', '[t]', '{ 1 < 2 }', '{ 2 < 1 }', '($eq 1 1)', '($not 1)', 'k', 'z', '"0"', '($len (1))']
TRUE = {'0': 0, '0.0': 0, '()': 0, '[]': 0, '{ 2 < 1 }': 0, '($not 1)': 0, 'z': 0}
LEGS = [('[yes]', 'yes'), ('5', '5'), ('"s t"', '"s t"'), ('(1 [,] 2)', '1,2'), ('[]', ''), ('($add k 1)', '4'), ('[($k)($unless 0 [n])]', '3n'), ('word', 'word'), ('()', '')]


def conditional(case, ctx):
    """All conditions with one pair of branches; ways to give them."""
    t, e, way = case
    text, want = '($set k 3)($set z 0)', ''
    lt, le = LEGS[t], ('', '') if e is None else LEGS[e]
    for n, c in enumerate(CONDS):
        truth = TRUE.get(c, 1)
        for fn in ('if', 'unless'):
            a, b = (lt, le) if fn == 'if' else (le, lt)
            if fn == 'unless' and e is None:
                # -- the second argument is the branch for a false condition
                a, b = ('', ''), lt
            first, second = (a, b) if fn == 'if' else (b, a)
            args = [first[0]] + ([second[0]] if e is not None else [])
            text += '%d:' % n + {
                'plain': '($%s %s %s)' % (fn, c, ' '.join(args)),
                'named': '($%s %s %s)' % (fn, ' '.join(r'\%s %s' % p for p in zip(('then', 'else'), args)), c),
                'fun': r'($ \c.($%s c %s) %s)' % (fn, ' '.join(args), c),
            }[way] + ';\n'
            want += '%d:%s;\n' % (n, a[1] if truth else b[1])
    # -- an assignment ends the text around it: one text after the other
    return agree(HEAD + text, want, ctx)


FUNS = [(r'\n.($add n 1)', lambda n: n + 1), (r'\n.(v_ ($n))', lambda n: 'v_%d' % n), (r'\n.[($n),]', lambda n: '%d,' % n), (r'\n.{ n * n }', lambda n: n * n), ('inc', lambda n: n + 1), ('sq', lambda n: n * n), (r'\n.(n 7)', lambda n: '%d7' % n)]
VALS = [('A', 'A'), ('[b c]', 'b c'), ('3', '3'), ('"q"', '"q"'), ('(1 2)', '12'), ('k', '9'), ('{ 1 + 1 }', '2')]


def unfold(case, ctx):
    """Every number of elements for one list of leading values and one function."""
    vals, fn, way = case
    text, want = r'($set k 9)($set sq \n.($mul n n))', ''
    lead = [VALS[v] for v in vals]
    for n in range(6):
        args = ' '.join([x for x, _ in lead] + [FUNS[fn][0]])
        text += {'plain': '($unfold %d %s)' % (n, args), 'expr': '($unfold ($add 0 %d) %s)' % (n, args), 'len': '($unfold ($len ($range %d)) %s)' % (n, args),
                 'list': r'($ ($unfold %d %s) \x.[($x)])' % (n, args)}[way] + ';\n'
        want += ''.join([v for _, v in lead][:n] + [str(FUNS[fn][1](k)) for k in range(len(lead), n)]) + ';\n'
    return agree(HEAD + text, want, ctx)


# --------------------------------------------------------------------------- dictionaries
CELLS = [('1', '1'), ('"s"', '"s"'), ('a', 'a'), ('[t u]', 't u'), ('(`Q::f( x ))', 'Q::f( x )'), ('-2', '-2'), ('($add 1 2)', '3'), ('b', '77'), ('{ 6 * 7 }', '42')]
NAMES = ['COL', 'TYPE', 'w', 'x_1']


def table(ident, ncols, nrows, start, names=NAMES):
    cells = [[CELLS[(start + i * ncols + j * 2) % len(CELLS)] for j in range(ncols)] for i in range(nrows)]
    text = '($dict %s (` %s ) (` %s ))\n' % (ident, ' '.join(names[:ncols]), ' '.join('( %s )' % ' '.join(c[0] for c in row) for row in cells))
    return text, [[c[1] for c in row] for row in cells]


USES = {
    'rows': lambda i, n, v: (r'($each-%s \i.[%s;])' % (i, '|'.join('($i %s)' % c for c in n)), ''.join('|'.join(row) + ';' for row in v)),
    'back': lambda i, n, v: (r'($ ($reversed each-%s) \i.[%s;])' % (i, '|'.join('($i %s)' % c for c in n)), ''.join('|'.join(row) + ';' for row in v[::-1])),
    'each': lambda i, n, v: ('($each-%s)/($len each-%s)' % (i, i), ''.join(str(k) for k in range(len(v))) + '/%d' % len(v)),
    'cols': lambda i, n, v: ('($cols-%s)/($len cols-%s)' % (i, i), ''.join(str(k) for k in range(len(n))) + '/%d' % len(n)),
    'lists': lambda i, n, v: ('/'.join('($%s),($len %s)' % (c, c) for c in n), '/'.join('%s,%d' % (''.join(row[k] for row in v), len(v)) for k in range(len(n)))),
    'loop': lambda i, n, v: ('/'.join(r'($ %s \x.[<($x)>])' % c for c in n), '/'.join(''.join('<%s>' % row[k] for row in v) for k in range(len(n)))),
    'one': lambda i, n, v: (';'.join('($%d %s)' % (k, c) for k in range(len(v)) for c in n), ';'.join(v[k][j] for k in range(len(v)) for j in range(len(n)))),
    'nest': lambda i, n, v: (r'($each-%s \i.[($each-%s \j.[($i %s)($j %s),])])' % (i, i, n[0], n[-1]), ''.join(a[0] + b[-1] + ',' for a in v for b in v)),
    'func': lambda i, n, v: (r'($set get \k.[<($k %s)>])($len %s)($each-%s get)' % (n[-1], n[0], i), '%d' % len(v) + ''.join('<%s>' % row[-1] for row in v)),
    'emit': lambda i, n, v: ('($emit %s)($emit %s)' % (n[0], n[0]), ''.join(row[0] for row in v[:2])),
}


def dictionary(case, ctx):
    ncols, nrows, start, use, again = case
    text, cells = table('INI', ncols, nrows, start)
    pre = '($set b 77)'
    if again == 'other':
        # -- another dictionary of other names
        t2, c2 = table('ETC', 2, 2, start + 1, ['pp', 'qq'])
        text, tail = text + t2, ('/($each-ETC \\i.[($i pp)($i qq),])', '/' + ''.join(x[0] + x[1] + ',' for x in c2))
    elif again == 'share':
        # -- another one that has the first name too: the later one is in force
        t2, c2 = table('ETC', 1, 3, start + 2)
        text, tail = t2 + text, ('/($each-ETC)', '/012')
    elif again == 'same':
        t2, _ = table('INI', 4, 3, start + 3)
        text, tail = t2 + text, ('', '')
    elif again == 'late':
        # -- a name used in a cell is assigned later
        pre, tail = pre, ('', '')
        text += '($set b 78)'
    else:
        tail = ('', '')
    u, w = USES[use]('INI', NAMES[:ncols], cells)
    if use == 'emit' and ncols * nrows == 0:
        return None
    return agree(HEAD + pre + text + u + tail[0] + '\n', w + tail[1] + '\n', ctx)


# --------------------------------------------------------------------------- C text
LINES = ['foo();', 'x = ( a, b );', 'if (!x) return;', 'y = "($$)";'[:0] + 'y = 1;', '/* c */', 'a[ 0 ] = \'c\';']


def do_text(lines, fn):
    body = '\n'.join(lines)
    return 'do {\n%s\n} while ( 0 )' % body if fn == 'do' else '({\n%s\n})' % body


SIGS = ['A', 'A()', 'CLEAR_VAR( var, mask )', 'F( ... )', 'M( a, b, c )']


def ctext(case, ctx):
    what, sig, lines, form = case
    body = [LINES[x] for x in lines]
    src = ',,%s' % '\n'.join(body) if form == 'quote' else ' ]\n%s\n[ ' % '\n'.join(body)
    if form == 'list' or not body:
        src = ' [%s]' % '\n'.join(body)
    if what in ('do', 'foo'):
        text, want = '($%s%s)' % (what, src), do_text(body, what)
    elif what == 'define':
        text, want = '($define [%s]%s)' % (SIGS[sig], src), None
        lines_ = ('#define %s %s' % (SIGS[sig], '\n'.join(body))).split('\n')
        want = ' \\\n'.join(lines_)
    else:
        inner = what.split('-')[1]
        text = '($define,,%s,,($%s%s))' % (SIGS[sig], inner, src)
        want = ' \\\n'.join(('#define %s %s' % (SIGS[sig], do_text(body, inner))).split('\n'))
    got = translate(HEAD + text + '\n')
    if not got.ok or got.errors:
        raise Violation('translation fails, expected %r\nprogram: %s\nreported: %s' % (want, text, got.errors))
    # -- every line of a macro but the last one goes on
    if squeeze(got.text) != squeeze(want):
        raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %r' % (text, squeeze(want), squeeze(got.text)))
    return want


# --------------------------------------------------------------------------- definitions
OPS = ['def A', 'undef A', 'def B', 'undef B', 'def-if A B', 'def-if B A', 'def-if 1 A', 'def-if 0 B', 'def-if A C', 'show', 'skip-if A', 'skip-if-not B', 'skip-if { A + B }', 'skip-if-not ($not A)']


def definitions(case, ctx):
    """A history of definitions; then what is known."""
    ops, place = case
    ops = [OPS[x] for x in ops]
    env = {'A': 0, 'B': 0, 'C': 0}
    text, want, skipped = '', [], False
    for o in ops + ['show']:
        w = o.split(' ', 1)
        val = None
        if len(w) > 1:
            first = w[1].split()[0]
            val = int(first) if first.isdigit() else env[first] if first in env else env['A'] + env['B'] if '+' in w[1] else int(not env['A'])
        if w[0] == 'show':
            text += '[($A)($B)($C)]\n'
            out = '[%d%d%d]' % (env['A'], env['B'], env['C'])
        elif w[0] in ('def', 'undef'):
            text += '($%s,,%s)\n' % tuple(w)
            out = ('#define %s' if w[0] == 'def' else '#undef  %s') % w[1]
            if not skipped:
                env[w[1]] = int(w[0] == 'def')
        elif w[0] == 'def-if':
            c, n = w[1].split()
            text += '($def-if,,%s,,%s)\n' % (c if c.isdigit() else '($%s)' % c, n)
            out = '#define %s' % n if val else ''
            if not skipped:
                env[n] = int(bool(val))
        else:
            text += '($%s %s)\nafter\n' % (w[0], w[1])
            out = 'after'
            if not skipped and bool(val) == (w[0] == 'skip-if'):
                skipped = True
        if not skipped:
            want.append(out)
    text = '($set A 0)($set B 0)($set C 0)\n' + text
    if place == 'module':
        d = ctx.dir()
        with open(os.path.join(d, 'inner.yu'), 'w') as f:
            f.write(HEAD + text)
        o = h.translate('($import inner)\nend\n', os.path.join(d, 'mod.yu-c'), os.path.join(d, 'mod.c'), directory=[LIB])
        want.append('end')
    else:
        o = translate(HEAD + text)
    want = squeeze('\n'.join(want))
    if not o.ok or o.errors:
        raise Violation('translation fails, expected %r\nprogram: %s\nreported: %s' % (want, text, o.errors))
    if squeeze(o.text) != want:
        raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %r' % (text, want, squeeze(o.text)))
    return want


KNOWN = [('($def LINK)\n($undef LINK)\n[($LINK)]', '#define LINK\n#undef  LINK\n[0]', 'undef-of-defined'),
         ('($def LINK)\n($def-if LINK TEST)\n[($TEST)]', '#define LINK\n#define TEST\n[1]', None),
         ('($undef LINK)\n($def-if LINK TEST)\n[($TEST)]', '#undef  LINK\n[0]', None)]


def plain_definitions(case, ctx):
    """The names as they are, the way the documentation shows it."""
    text, want, key = KNOWN[case]
    o = translate(HEAD + text)
    if not o.ok or squeeze(o.text) != want:
        raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %r' % (text, want, squeeze(o.text) if o.ok else o.errors), key=key)
    return want


# --------------------------------------------------------------------------- numbers
def binary(case, ctx):
    """All words with a prefix; every one by BIN, grouped by BB."""
    pre, = case
    text, want = '', ''
    for k in range(5):
        for n in range(1 << k):
            w = pre + (bin(n)[2:].zfill(k) if k else '')
            if not w:
                continue
            text += '($BIN,,%s) ' % w
            want += '%d ' % int(w, 2)
    return agree(HEAD + text + '\n', want + '\n', ctx)


def groups(case, ctx):
    ws = [['0', '1', '10110011', '11111111', '00000001', '1000'][x] for x in case]
    n = 0
    for w in ws:
        n = n << 8 | int(w, 2)
    want = '%d %s\n' % (n, hex(n))
    bb = ''.join(',,' + w for w in ws)
    return agree(HEAD + '($BB%s) ($hex ($BB%s))\n' % (bb, bb), want, ctx)


def limits(case, ctx):
    """INT_MAX and INT_MIN are those of int32_t."""
    o = translate(HEAD + '($INT_MAX) ($INT_MIN) ($hex INT_MAX) ($add INT_MAX INT_MIN)\n')
    want = '2147483647 -2147483648 0x7fffffff -1'
    if not o.ok or squeeze(o.text) != want:
        # -- the known defect is this very text: the limits of the machine's integer
        key = 'machine-limits' if o.ok and squeeze(o.text) == '9223372036854775807 -9223372036854775808 0x7fffffffffffffff -1' else None
        raise Violation('expected %r, got %r' % (want, squeeze(o.text) if o.ok else o.errors), key=key)
    return want


# --------------------------------------------------------------------------- functions with variable arguments
TYPES = [('int', 'int'), ('[char *]', 'char *'), ('double', 'double'), ('[struct s]', 'struct s')]
PARTS = [('($ &arg-begin)', 'va_list argptr;\nva_start( argptr, argcnt );'), ('($ &arg-end)', 'va_end( argptr );'), ('while ( ($ &arg-count)-- );', 'while ( argcnt-- );'),
         ('r += ($ &arg-value &type);', 'r += va_arg( argptr, %s );'), ('s = ($ &arg-value,,long);', 's = va_arg( argptr, long );'), ('($ &type) r;', '%s r;'), ('return ( r );', 'return ( r );'), ('t = ($ &arg-value [char *]);', 't = va_arg( argptr, char * );')]


def argv(case, ctx):
    ty, name, parts, way = case
    t, shown = TYPES[ty]
    body = '\n'.join(PARTS[p][0] for p in parts)
    want = 'int_' if False else '%s %s( int argcnt, ... )\n{\n%s\n}\n' % (shown, name, '\n'.join(PARTS[p][1].replace('%s', shown) for p in parts))
    pre = {'plain': '', 'set': '($set type 5)($set body 6)($set argcnt 7)\n', 'late': '($set arg-other 8)\n'}[way]
    return agree(HEAD + pre + '($def-fn-argv %s %s ]\n%s\n[ )\n' % (t, name, body), want, ctx)


# --------------------------------------------------------------------------- one after the other
POOL = [
    ('($if 1 [a] [b])', 'a'), ('($unless 1 [a] [b])', 'b'), (r'($unfold 4 A B \n.{ n * 2 })', 'AB46'), ('($do,,x();)', 'do {\nx();\n} while ( 0 )'), ('($foo,,x();)', '({\nx();\n})'), ('($define,,A,,1)', '#define A 1'),
    ('($def,,L1)($L1)', '#define L11'), ('($undef,,L2)($L2)', '#undef  L20'), ('($def-if,,1,,L3)($L3)', '#define L31'), ('($BIN,,101)', '5'), ('($BB,,1,,10)', '258'), (r'($dict D (` x y ) (` ( 1 2 ) ( 3 4 ) ))($each-D \i.[($i y)($i x)])', '2143'),
    (r'($dict E (` y ) (` ( 8 ) ))($each-E \i.[<($i y)>])', '<8>'), ('($def-fn-argv int f [($ &arg-count)($ &type)])', 'int f( int argcnt, ... )\n{\nargcntint\n}'), ('($skip-if 0)k', 'k'), ('($skip-if-not 1)m', 'm'),
    ('($set i 5)($if i [($i)] [n])', '5'), ('($set n 4)($unfold n inc)', '1234'), ('($set body 3)($set name 2)($set cond 0)($if cond body name)', '2'), ('($unless ($isatom EOL) [e] [u])', 'u'), ('($set x 1)($x)', '1'),
]


def after(case, ctx):
    text = HEAD + ''.join('%s\n@\n' % POOL[k][0] for k in case)
    return agree(text, ''.join('%s\n@\n' % POOL[k][1] for k in case), ctx)


# --------------------------------------------------------------------------- header files
DECLS = {
    # kind: (text, light version has it, what the implementation sees (C, C++), what others see (C, C++))
    'var': ('($var,,bool plugh)', 1, ('bool plugh;',) * 2, ('extern bool plugh;',) * 2),
    'var2': ('($var,,int a[ 2 ])', 1, ('int a[2];',) * 2, ('extern int a[2];',) * 2),
    'vari': ('($var-init,,short fred[ 3 ],,{ 7, 11, 13 })', 1, ('short fred[3] = {7, 11, 13};',) * 2, ('extern short fred[3];',) * 2),
    'vari2': ('($var-init,,char *xyzzy,,"off")', 1, ('char *xyzzy = "off";',) * 2, ('extern char *xyzzy;',) * 2),
    'varc': ('($var-c,,float flob)', 0, ('float flob;', 'extern "C" float flob; float flob;'), ('extern float flob;', 'extern "C" float flob;')),
    'varci': ('($var-c-init,,char *cc,,"off")', 0, ('char *cc = "off";', 'extern "C" char *cc; char *cc = "off";'), ('extern char *cc;', 'extern "C" char *cc;')),
    'fun': ('($extern) void foo( char *a );', 0, ('void foo(char *a);',) * 2, ('extern void foo(char *a);',) * 2),
    'funi': ('($extern) char *bar ($init,,"The, Beggar");', 0, ('char *bar = "The, Beggar";',) * 2, ('extern char *bar;',) * 2),
    'funi2': ('($extern) int baz[ 2 ] ($init,,{ 1, 2 });', 0, ('int baz[2] = {1, 2};',) * 2, ('extern int baz[2];',) * 2),
    'func': ('($extern-c) int corge( double val );', 0, ('extern int corge(double val);', 'extern "C" int corge(double val);'), ('extern int corge(double val);', 'extern "C" int corge(double val);')),
    'block': ('($extern-c-begin)\nextern bool waldo( void );\n($extern-c-end)', 1, ('extern bool waldo(void);', 'extern "C" { extern bool waldo(void); }'), ('extern bool waldo(void);', 'extern "C" { extern bool waldo(void); }')),
    'block2': ('($extern-c-begin)\n($var,,long w)\n($extern-c-end)', 1, ('long w;', 'extern "C" { long w; }'), ('extern long w;', 'extern "C" { extern long w; }')),
    'inl': ('($inline) int qux( int a ) { return ( a ); }', 1, ('int qux(int a) { return (a); }',) * 2, ('INLINE int qux(int a) { return (a); }',) * 2),
}
KINDS = sorted(DECLS)
MODES = [(impl, lang, gnu) for impl in (0, 1) for lang in ('c', 'c++') for gnu in ((0, 1) if lang == 'c' else (0,))]


def tokens(t):
    return re.findall(r'"[^"]*"|\w+|[^\s\w]', t)


def preprocessed(d, src, lang, gnu):
    args = ['gcc', '-E', '-P', '-x', lang] + (['-fgnu89-inline'] if gnu else []) + [src]
    p = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if p.returncode:
        raise Violation('gcc -E fails: %s' % p.stderr.decode()[:500])
    return tokens(p.stdout.decode())


def header(case, ctx):
    light, named, kinds = case
    decls = [DECLS[k] for k in kinds]
    if light and not all(x[1] for x in decls):
        return None
    d = ctx.dir()
    base = {'named': 'my-mod', 'plain': 'other'}[named]
    guard = 'MY_MOD'
    begin = '($h-begin-named)' if named == 'named' else '($h-begin my_mod)'
    setting = {0: '($set hlib-light 0)\n', 1: '($set hlib-light 1)\n', None: ''}[light]
    text = setting + '($import hlib)\n' + begin + '\n' + ''.join(x[0] + '\n' for x in decls) + '($h-end)\n'
    o = h.translate(text, os.path.join(d, base + '.yu-h'), os.path.join(d, base + '.h'), directory=[LIB])
    if not o.ok or o.errors:
        raise Violation('translation fails\nheader: %s\nreported: %s' % (text, o.errors))
    o2 = h.translate(setting + '($import hlib)\n' + ('($implement-named)' if named == 'named' else '($implement,,my_mod)') + '\n', os.path.join(d, base + '.yu-c'), os.path.join(d, base + '.c'), directory=[LIB])
    if not o2.ok or o2.errors:
        raise Violation('translation of the implementation fails: %s' % o2.errors)
    with open(os.path.join(d, base + '.h'), 'w') as f:
        f.write(str(o.text))
    names = ['VAR', 'VAR_INIT', 'VAR_C', 'VAR_C_INIT', 'EXT', 'EXT_C', 'INIT', 'INL']
    check = ''.join('#ifdef %s_%s\nleft %s\n#endif\n' % (guard, n, n) for n in names) + '#ifndef %s_H\nno guard\n#endif\n' % guard
    out = []
    for impl, lang, gnu in MODES:
        with open(os.path.join(d, 't.c'), 'w') as f:
            f.write((str(o2.text) if impl else '') + '\n#include "%s.h"\n#include "%s.h"\n%s' % (base, base, check))
        got = preprocessed(d, 't.c', lang, gnu)
        want = tokens(' '.join(x[2 if impl else 3][lang == 'c++'] for x in decls).replace('INLINE', 'extern inline' if gnu else 'inline'))
        if got != want:
            raise Violation('%s, %s%s sees another declaration\nheader: %s\nexpected %s\ngot      %s' % (
                'the implementation' if impl else 'a user', lang, ' with gnu89 inline' if gnu else '', text, ' '.join(want), ' '.join(got)))
        out.append(' '.join(got))
    return '\n'.join(out)


def both(case, ctx):
    """Two headers used together, one of them implemented."""
    k1, k2, light, impl = case
    d = ctx.dir()
    for name, k in (('one', k1), ('two', k2)):
        text = '($set hlib-light %d)\n($import hlib)\n($h-begin-named)\n%s\n($h-end)\n' % (light, DECLS[k][0].replace('(', '(', 1))
        if light and not DECLS[k][1]:
            return None
        o = h.translate(text, os.path.join(d, name + '.yu-h'), os.path.join(d, name + '.h'), directory=[LIB])
        if not o.ok:
            raise Violation('translation fails\nheader: %s\nreported: %s' % (text, o.errors))
        with open(os.path.join(d, name + '.h'), 'w') as f:
            f.write(str(o.text))
    o = h.translate('($set hlib-light %d)\n($import hlib)\n($implement,,%s)\n#include "one.h"\n#include "two.h"\n' % (light, impl), os.path.join(d, 'x.yu-c'), os.path.join(d, 'x.c'), directory=[LIB])
    if not o.ok:
        raise Violation('translation fails: %s' % o.errors)
    with open(os.path.join(d, 't.c'), 'w') as f:
        f.write(str(o.text))
    got = preprocessed(d, 't.c', 'c', 0)
    want = tokens((DECLS[k1][2 if impl == 'one' else 3][0] + DECLS[k2][2 if impl == 'two' else 3][0]).replace('INLINE', 'inline'))
    if got != want:
        raise Violation('two headers, %s implemented (%s, %s)\nexpected %s\ngot      %s' % (impl, k1, k2, ' '.join(want), ' '.join(got)))
    return ' '.join(got)


def families(tier):
    t = tier == 'thorough'
    nl = len(LEGS)
    return [
        Family('conditional', Prod(range(nl), [None] + list(range(nl)), ['plain', 'named', 'fun']), conditional, 'if and unless: every condition x every pair of branches'),
        Family('unfold', Prod(Map(list, Sum(*[Prod(*[range(len(VALS))] * k) for k in range(4 if t else 3)])), range(len(FUNS)), ['plain', 'expr', 'len', 'list']), unfold, 'unfold: every list of leading values'),
        Family('dict', Prod([1, 2, 3] + ([4] if t else []), [1, 2, 3], range(len(CELLS)), sorted(USES), [None, 'other', 'share', 'same', 'late']), dictionary, 'dictionaries up to three by three'),
        Family('c-text', Prod(['do', 'foo', 'define', 'define-do', 'define-foo'], range(len(SIGS)), Map(list, Words(range(len(LINES)), 3 if t else 2, 1)), ['quote', 'block']), ctext, 'do, foo, define'),
        Family('definitions', Prod(Map(list, Words(range(len(OPS)), 4 if t else 3)), ['text', 'module']), definitions, 'histories of def, undef, def-if, skip-if'),
        Family('names', range(len(KNOWN)), plain_definitions, 'names given as they are'),
        Family('binary', Prod(['', '0', '1', '01', '10', '0001', '11111', '1010101010', '0' * 20 + '1', '1' * 40]), binary, 'binary numbers'),
        Family('bytes', Map(list, Words(range(6), 5 if t else 4, 1)), groups, 'numbers of several bytes'),
        Family('limits', [0], limits, 'limits'),
        Family('argv', Prod(range(len(TYPES)), ['f', 'sum_i'], Map(list, Words(range(len(PARTS)), 4 if t else 2)), ['plain', 'set', 'late']), argv, 'functions with variable arguments'),
        Family('after', Map(list, Words(range(len(POOL)), 3 if t else 2, 1)), after, 'every use after every other'),
        Family('headers', Prod([0, 1, None], ['named', 'plain'], Map(list, Words(KINDS, 3 if t else 2))), header, 'headers as the implementation and others see them'),
        Family('two-headers', Prod(KINDS, KINDS, [0, 1], ['one', 'two']), both, 'two headers in one unit'),
    ]
