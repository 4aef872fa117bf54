"""C15: Python files marked as yupp are executed as their translation."""
import builtins
import codecs
import importlib
import importlib.util
import io
import os
import re
import runpy
import subprocess
import sys
import tokenize

from engine import Family, Map, Prod, REPO, Sum, Violation, Words
import harness as h

LEVEL = 'exploration'
RULE = ('every spelling of the declaration x base encoding x line end x body, read in every way (imported, as a module of a package, '
        'run by path, opened whole, by lines and by every chunk size, through every codec interface, as a script of a fresh '
        'process), twice in a row; what is delivered must be the translation of exactly that file, and the values it computes those '
        'the body is written to give; distinct = different codes')
ASSUMPTIONS = ['the interpreter is the one the repository is tested with', 'files are read whole or in sequence, not from the middle',
               'a file is not replaced while it is read',
               'translate() reads its file in the encoding of the locale (UTF-8 here), as the command does']

# -- the package, over the modules the harness has loaded
for _n in list(sys.modules):
    if _n == 'pp' or _n.startswith('pp.'):
        sys.modules['yupp.' + _n] = sys.modules[_n]
_spec = importlib.util.spec_from_file_location('yupp', os.path.join(REPO, '__init__.py'), submodule_search_locations=[REPO])
yupp = importlib.util.module_from_spec(_spec)
sys.modules['yupp'] = yupp
_spec.loader.exec_module(yupp)
h.install()
R = builtins.__dict__.setdefault('_yv_r', [])

# -- header lines; %s is the codec
FORMS = ['# coding: %s', '#coding: %s', '# -*- coding: %s -*-', '# coding=%s', '# -*- coding:%s-*-', '# vim: set fileencoding=%s :', '#  coding:   %s', '## coding: %s # x',
         '# a coding: %s', '# encoding: %s', '\t# coding: %s', ' # coding: %s', '#!/bin/sh coding: %s', '# coding:\t%s', '# yupp.py coding: %s', '# coding: %s yupp.x coding: ascii', '# coding: %s-*-x', '# recoding= %s']
LEAD = ['', '#!/usr/bin/env python\n', '\n', '# remark\n', '#\n', ' \n', '#!x y z\n', '\t# q\n']
BASES = {'': 'utf-8', '.utf-8': 'utf-8', '.latin-1': 'latin-1', '.cp1251': 'cp1251', '.UTF-8': 'utf-8', '.koi8-r': 'koi8-r', '.ascii': 'ascii', '.iso-8859-15': 'iso-8859-15', '.utf_8': 'utf-8',
         '.mac-roman': 'mac-roman', '!': 'utf-8', '!.latin-1': 'latin-1', '!.KOI8-R': 'koi8-r'}


def name_of(base):
    """The codec's name; ! writes it in capitals."""
    return 'YUPP' + base[1:] if base[:1] == '!' else 'yupp' + base


# -- statements and the values they add
BODY = [
    ('_yv_r.append(1)', [1]), ('_yv_r.append(($add 1 2))', [3]), ('($set k 5)_yv_r.append(($k))', [5]), ('($ (1 2) \\p.[\n_yv_r.append(($p))])', [1, 2]),
    ('if 1:\n    ($ [\n_yv_r.append(1)\n_yv_r.append(2)])\n', [1, 2]), ('($macro M (q) _yv_r.append("($q)"))\n($M zz)', ['zz']), ('# ($add 1 2) s\n_yv_r.append(7)', [7]),
    ('_yv_r.append("""a\n\n\nb""")', ['a\n\nb']), ('def f(x):\n\t_yv_r.append(x)\nf(($strlen abc))', [3]), ('_yv_r.append(ascii("@"))', '@'), ('($import "lib.yu")_yv_r.append(($lv))', [11]),
    ('_yv_r.append(__name__[:2])', ['__']), ('_yv_r.append("yupp # coding: yupp")', ['yupp # coding: yupp']), ('', []), ('_yv_r.append("($$)")', ['($$)']),
]
CHAR = {'utf-8': '\u0416\xe9', 'latin-1': '\xe9\xc4', 'cp1251': '\u0416', 'koi8-r': '\u0416', 'ascii': 'e', 'iso-8859-15': '\u20ac', 'mac-roman': '\xe9'}
# -- (kind, statements that make the translation or the code fail); earlier statements are good
BAD = [('translation', '($add 1 "s")'), ('translation', '($add 1'), ('translation', '($nosuch 1)'), ('translation', '($ \\p.(p))'), ('code', 'x = = 1'), ('code', ' if 1'), ('translation', '($import none)'),
       ('code', '_yv_r.append(($ [1]) 2)'), ('translation', '($ {1/0})'), ('code', 'return ($add 1 2) 5')]
# -- not a declaration of the codec
PLAIN = ['# coding: utf-8\n', '', '#!/bin/sh\n', '# a\n# b\n# coding: yupp\n', 'x = "# coding: yupp"\n', 'x = 1 # coding: yupp\n', '"""\n# coding: yupp\n"""\n', '# coding yupp\n', '# cod: yupp\n',
         '# coding: utf-8\n# coding: yupp\n', '\n\n# coding: yupp\n', '# codin: yupp\n', 'pass\n# coding: yupp\n', '# coding: latin-1\n# coding: yupp.latin-1\n', '# yupp\n', '\n# a\n# coding: yupp\n', '#!x\n\n# coding: yupp\n', '# a\n# b\n# c\n# coding: yupp.latin-1\n']
UNKNOWN = ['yuppx', 'yupp2', 'xyupp', 'yupp.nosuch', 'yupp-utf-8', 'yup', 'yupp.', 'yupp.yupp']
ARGV = ['other.py', 'plain.py', '-c', '', 'none.py', 'm.py']
SETTINGS = {'none': None, 'define': "pp_define = ['K:5']\n", 'out': "output_dir = 'out'\n", 'write': 'read_only = False\n', 'browse': 'pp_browse = True\n', 'keep': 'pp_reduce_emptiness = False\n'}
EFFECT = {'keep': {'pp_reduce_emptiness': False}, 'browse': {'pp_browse': True}}


def put(n, data):
    if isinstance(data, str):
        data = data.encode('utf8')
    with open(n, 'wb') as f:
        f.write(data)


def lay(root):
    os.chdir(root)
    put('lib.yu', '($set lv 11)')
    put('other.py', '# coding: yupp\n_yv_r.append("other")\n')
    put('plain.py', '_yv_r.append("plain")\n')
    os.mkdir('out')


def body_of(items, base):
    """(text, values)"""
    text, want = '', []
    for i in items:
        s, v = BODY[i]
        if v == '@':
            s = s.replace('@', CHAR[base])
            v = [ascii(CHAR[base])]
        text += s + '\n'
        want += v
    return text, want


def expected(fn, text, settings):
    """(ok, code): the translation of a text as the file's, its settings considered."""
    h.configure(**EFFECT.get(settings, {}))
    del h.LOG.rec[:]
    ok, plain = h._translate(text, fn, os.path.splitext(fn)[0] + '.yugen.py')
    h.reset_shell()
    return ok, str(plain) if ok else ''


class Quiet(object):
    """What a step prints and logs, apart."""

    def __enter__(self):
        self.old = sys.stdout, sys.stderr, sys.argv[:], sys.path[:], sys.dont_write_bytecode
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        sys.dont_write_bytecode = True
        del h.LOG.rec[:]
        del R[:]
        return self

    def __exit__(self, *a):
        self.err = sys.stderr.getvalue()
        self.logs = [m for lv, m in h.LOG.rec if lv >= 40]
        self.values = R[:]
        sys.stdout, sys.stderr, sys.argv, sys.path[:], sys.dont_write_bytecode = self.old
        return False


def read_import(fn, codec, n):
    name = os.path.splitext(os.path.basename(fn))[0]
    sys.path.insert(0, os.path.dirname(os.path.abspath(fn)))
    importlib.invalidate_caches()
    for k in [k for k in sys.path_importer_cache if k.startswith(os.getcwd())]:
        del sys.path_importer_cache[k]
    sys.modules.pop(name, None)
    try:
        importlib.import_module(name)
    finally:
        sys.modules.pop(name, None)


def read_package(fn, codec, n):
    name = os.path.splitext(os.path.basename(fn))[0]
    os.makedirs('pkg', exist_ok=True)
    # -- the package is the directory itself under another name
    spec = importlib.util.spec_from_file_location('pkg.' + name, fn)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)


def read_path(fn, codec, n):
    runpy.run_path(fn)


def read_main(fn, codec, n):
    """As the running script: the whole text, the file is known as the first argument."""
    sys.argv = [fn]
    with open(fn, 'rb') as f:
        code = f.read()
    exec(compile(code, fn, 'exec'), {'__name__': '__main__'})


def read_rest(fn, codec, n):
    """As the running script, the header has been read."""
    sys.argv = [fn]
    with open(fn, 'rb') as f:
        data = f.read()
    k = header_end(data)
    d = codecs.getincrementaldecoder(codec)()
    return d.decode(data[k:]) + d.decode(b'', True)


def read_open(fn, codec, n):
    with open(fn, encoding=codec) as f:
        return f.read()


def read_lines(fn, codec, n):
    with open(fn, encoding=codec) as f:
        return ''.join(f)


def read_chunks(fn, codec, n):
    with open(fn, encoding=codec) as f:
        return ''.join(iter(lambda: f.read(n), ''))


def read_codecs(fn, codec, n):
    with codecs.open(fn, 'r', codec) as f:
        return f.read()


def read_codecs_lines(fn, codec, n):
    with codecs.open(fn, 'r', codec) as f:
        return ''.join(f)


def read_codecs_chunks(fn, codec, n):
    with codecs.open(fn, 'r', codec) as f:
        return ''.join(iter(lambda: f.read(n), ''))


def read_incremental(fn, codec, n):
    with open(fn, 'rb') as f:
        data = f.read()
    d = codecs.getincrementaldecoder(codec)()
    out = ''
    for i in range(0, len(data), n):
        out += d.decode(data[i:i + n])
    return out + d.decode(b'', True)


def read_decode(fn, codec, n):
    with open(fn, 'rb') as f:
        return codecs.decode(f.read(), codec)


def read_tokenize(fn, codec, n):
    with tokenize.open(fn) as f:
        return f.read()


def read_translate(fn, codec, n):
    ok, fn_o = yupp.translate(fn)
    if not ok:
        return ''
    with open(fn_o, encoding='utf8', newline='') as f:
        return f.read()


EXEC = {'import': read_import, 'package': read_package, 'path': read_path, 'main': read_main}
TEXT = {'open': read_open, 'lines': read_lines, 'chunks': read_chunks, 'codecs': read_codecs, 'codecs-lines': read_codecs_lines, 'codecs-chunks': read_codecs_chunks, 'incremental': read_incremental,
        'decode': read_decode, 'tokenize': read_tokenize, 'translate': read_translate, 'rest': read_rest}
# -- modes in which the codec can know the file (and its settings)
KNOWN = ('import', 'package', 'path', 'main', 'rest', 'codecs', 'codecs-lines', 'codecs-chunks', 'translate')
NAME = {'import': 'm', 'package': 'pk', 'main': '__', 'path': '<r'}
COOKIE = re.compile(r'^[ \t\f]*#.*?coding[:=][ \t]*([-\w.]+)')


def header_end(data):
    """Where the lines a reader of the declaration reads end."""
    lines = data.decode('latin-1').replace('\r\n', '\n').split('\n')
    n = 1 if COOKIE.match(lines[0]) else 2
    k = 0
    for _ in range(n):
        k = data.find(b'\n', k) + 1 or len(data)
    return k


def declares(text):
    """The codec a text declares, as the language defines it."""
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    m = COOKIE.match(lines[0])
    if m:
        return m.group(1)
    if re.match(r'^[ \t\f]*(#.*)?$', lines[0]) and len(lines) > 1:
        m = COOKIE.match(lines[1])
        if m:
            return m.group(1)
    return None


def same(a, b):
    """The line end of the last line is not part of the code."""
    return a.rstrip('\n') == b.rstrip('\n')


def observe(fn, mode, codec, argv0, n=5):
    """(text or None, values, reports, stderr, exception)"""
    exc = text = None
    with Quiet() as q:
        sys.argv = [argv0]
        try:
            text = (EXEC.get(mode) or TEXT[mode])(fn, codec, n)
        except BaseException as e:
            exc = e
            if isinstance(e, KeyboardInterrupt):
                raise
    return text, q.values, q.logs, q.err, exc


def header(form, lead, base):
    return LEAD[lead] + FORMS[form] % (name_of(base)) + '\n'


def check_good(case, ctx):
    form, lead, base, items, mode, argv0, eol, settings = case
    root = ctx.dir()
    lay(root)
    body, want = body_of(items, BASES[base])
    text = header(form, lead, base) + body
    codec = declares(text)
    if codec != name_of(base):
        return None
    if eol != '\n' and lead in (2, 5) and mode in EXEC:
        # -- the interpreter itself does not see such a declaration
        return None
    if mode == 'translate' and BASES[base] != 'utf-8' and any(ord(x) > 127 for x in text):
        return None
    fn = 'm.py' if mode != 'package' else 'mm.py'
    put(fn, text.replace('\n', eol).encode(BASES[base]))
    if SETTINGS[settings]:
        put('m.yuconfig', SETTINGS[settings])
        put('mm.yuconfig', SETTINGS[settings])
    ok, code = expected(fn, text, settings if mode in KNOWN else 'none')
    info = '%r read as %s, argv[0] %r, settings %s' % (text, mode, argv0, settings)
    if not ok:
        raise Violation('%s\ndoes not translate: %s' % (info, h.LOG.rec))
    if declares(code) != (base.split('.')[1] if '.' in base else None):
        raise Violation('%s\nthe code declares %r: %r' % (info, declares(code), code))
    if settings == 'keep' and mode in KNOWN:
        want = ['a\n\n\nb' if x == 'a\n\nb' else x for x in want]
    if mode == 'rest' and not items:
        return None
    for k in range(2):
        got, values, logs, err, exc = observe(fn, mode, codec, argv0)
        if exc is not None or logs or err:
            raise Violation('%s, time %d\nfails: %r %s %s' % (info, k + 1, exc, logs, err))
        if mode in EXEC:
            w = [NAME[mode] if x == '__' else x for x in want]
            if values != w:
                raise Violation('%s, time %d\nvalues %r, expected %r' % (info, k + 1, values, w))
        else:
            if mode == 'codecs-lines' or mode == 'codecs-chunks' or mode == 'codecs':
                got = got.replace('\r\n', '\n')
            if not same(got, code):
                raise Violation('%s, time %d\ndelivers %r, expected %r' % (info, k + 1, got, code))
            if values:
                raise Violation('%s\nwas executed' % info)
    return code


def check_bad(case, ctx):
    form, lead, base, kind, bad, before, mode, argv0 = case
    root = ctx.dir()
    lay(root)
    text = header(form, lead, base) + '_yv_r.append(0)\n' * before + bad + '\n_yv_r.append(9)\n'
    codec = declares(text)
    put('m.py', text.encode(BASES[base]))
    info = '%r read as %s, argv[0] %r' % (text, mode, argv0)
    for k in range(2):
        got, values, logs, err, exc = observe('m.py', mode, codec, argv0)
        if mode == 'translate' and kind == 'code':
            return None
        if values or got:
            raise Violation('%s\ndelivers %r %r' % (info, got, values))
        if not logs and not err and not isinstance(exc, SyntaxError):
            raise Violation('%s\nno report' % info)
        if kind == 'translation' and len(logs) != 1:
            raise Violation('%s\nreports %r' % (info, logs))
        if kind == 'code' and 'SyntaxError' not in err and 'IndentationError' not in err and not isinstance(exc, SyntaxError):
            raise Violation('%s\nno report of the syntax error: %r %r' % (info, err, exc))
        if exc is not None and not isinstance(exc, SyntaxError):
            raise Violation('%s\nescapes: %r' % (info, exc))
    return len(logs), type(exc).__name__, err[-80:]


def check_plain(case, ctx):
    head, mode, argv0 = case
    root = ctx.dir()
    lay(root)
    text = PLAIN[head] + '_yv_r.append("($add 1 2)")\n'
    if declares(text) and 'yupp' in declares(text).lower():
        raise AssertionError(text)
    put('m.py', text)
    before = sorted(os.listdir('.'))
    got, values, logs, err, exc = observe('m.py', mode, 'utf-8', argv0)
    if mode == 'translate':
        # -- on request any file is translated; remarks that declare nothing stay
        if declares(text):
            return None
        h.configure()
        ok, want = h._translate(text, 'm.yu-x', 'm.x')
        h.reset_shell()
        if exc is not None or logs or err or values or not same(got, str(want)):
            raise Violation('%r translated: %r, expected %r; %r %r' % (text, got, want, exc, logs))
        return PLAIN[head], mode
    if exc is not None or values != ['($add 1 2)'] or logs or err or sorted(x for x in os.listdir('.') if x != 'pkg') != before:
        raise Violation('%r read as %s: %r %r %r %r' % (text, mode, values, exc, logs, sorted(os.listdir('.'))))
    return PLAIN[head]


def check_unknown(case, ctx):
    name, lead, mode = case
    root = ctx.dir()
    lay(root)
    text = header(0, lead, '').replace('yupp', UNKNOWN[name]) + '_yv_r.append(($add 1 2))\n'
    put('m.py', text)
    before = sorted(os.listdir('.'))
    got, values, logs, err, exc = observe('m.py', mode, UNKNOWN[name], 'plain.py')
    if not isinstance(exc, (SyntaxError, LookupError)) or values or sorted(x for x in os.listdir('.') if x != 'pkg') != before:
        raise Violation('%r read as %s: %r %r %r' % (text, mode, values, exc, sorted(os.listdir('.'))))
    return type(exc).__name__


def check_set(case, ctx):
    """Several files that import each other, one of them the first argument."""
    kinds, order, argv0, again = case
    root = ctx.dir()
    lay(root)
    names = ['a', 'b', 'c'][:len(kinds)]
    for i, (n, k) in enumerate(zip(names, kinds)):
        nxt = names[i + 1] if i + 1 < len(names) else None
        imp = 'import %s\n' % nxt if nxt else ''
        if k == 'y':
            put(n + '.py', '# coding: yupp\n($set v "%s")%s_yv_r.append(($v))\n' % (n, imp if order else '') + ('' if order else imp))
        elif k == 's':
            put(n + '.py', '#!x\n# coding: yupp.latin-1\n%s_yv_r.append(($unq "%s") + "\xe9")\n'.replace('($unq "%s")', '($"%s")').encode('latin-1').decode('latin-1')
                .replace('%s', '\0', 1).replace('%s', n).replace('\0', imp).encode('latin-1'))
        else:
            put(n + '.py', '%s_yv_r.append("%s")\n' % (imp, n))
    want = []
    for n, k in zip(names, kinds):
        v = n + ('\xe9' if k == 's' else '')
        want = want + [v] if k == 'y' and not order else want
    # -- values in the order the modules end (or begin to import)
    def run(i):
        if i >= len(names):
            return []
        v = [names[i] + ('\xe9' if kinds[i] == 's' else '')]
        return v + run(i + 1) if kinds[i] == 'y' and not order else run(i + 1) + v
    want = run(0)
    for t in range(1 + again):
        for n in names:
            sys.modules.pop(n, None)
        try:
            got, values, logs, err, exc = observe('a.py', 'import', 'yupp', argv0)
        finally:
            for n in names:
                sys.modules.pop(n, None)
        if exc is not None or values != want or logs or err:
            raise Violation('files of %r, argv[0] %r, time %d: values %r, expected %r; %r %r %s' % (kinds, argv0, t + 1, values, want, exc, logs, err))
    made = sorted(x for x in os.listdir('.') if '.yugen' in x)
    if made != sorted('%s.yugen.py' % n for n, k in zip(names, kinds) if k != 'p'):
        raise Violation('files of %r, argv[0] %r: made %r' % (kinds, argv0, made))
    return tuple(want)


SITE = '''import builtins, sys
sys.dont_write_bytecode = True
builtins._yv_r = []
import yupp
'''
PYTHON = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def check_script(case, ctx):
    """A fresh process."""
    form, lead, base, items, how, bad = case
    root = ctx.dir()
    lay(root)
    os.mkdir('pk')
    os.symlink(REPO, 'pk/yupp')
    put('pk/sitecustomize.py', SITE)
    body, want = body_of(items, BASES[base])
    end = 'print("END", _yv_r)\n'
    text = header(form, lead, base) + body + (BAD[bad][1] + '\n' if bad is not None else '') + end
    if declares(text) != name_of(base):
        return None
    put('m.py', text.encode(BASES[base]))
    put('run.py', 'import m\n')
    args = {'script': ['m.py'], 'dot': ['./m.py'], 'abs': [os.path.join(root, 'm.py')], 'import': ['run.py'], 'module': ['-m', 'm'], 'command': ['-c', 'import m']}[how]
    env = dict(os.environ, PYTHONPATH=os.path.join(root, 'pk'), PYTHONDONTWRITEBYTECODE='1')
    want = ['m' if x == '__' and how in ('import', 'command') else x for x in want]
    outs = []
    for k in range(2):
        p = subprocess.run([PYTHON] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root, timeout=60)
        out, err = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
        info = '%r run as %s, time %d\nstatus %d, output %r, errors %r' % (text, how, k + 1, p.returncode, out, err)
        if bad is None:
            if p.returncode or out != 'END %r\n' % (want,) or err:
                raise Violation(info + '\nexpected values %r' % (want,))
        else:
            if 'END' in out:
                raise Violation(info + '\nthe code was delivered')
            if 'error' not in (out + err).lower():
                raise Violation(info + '\nno report')
        outs.append(out)
    return tuple(outs)


def families(tier):
    t = tier == 'thorough'
    forms, leads = range(len(FORMS)), range(len(LEAD))
    modes = sorted(EXEC) + sorted(TEXT)
    ex = sorted(EXEC)
    one = Map(list, Words(range(len(BODY)), 1))
    two = Map(list, Words(range(len(BODY)), 2))

    def flat(x):
        return list(x[:3]) + list(x[3]) + list(x[4:])
    return [
        Family('headers', Prod(forms, leads, sorted(BASES), [[1, 9]], modes if t else ['import', 'main', 'rest', 'open', 'codecs', 'translate'], ['plain.py'], ['\n', '\r\n'] if t else ['\n'], ['none']), check_good,
               'every spelling and place of the declaration'),
        Family('bodies', Prod([0, 2] if t else [0], [0, 1], sorted(BASES) if t else ['', '.latin-1', '.cp1251'], two, modes, ['plain.py'], ['\n'], ['none']), check_good, 'every body'),
        Family('modes', Prod([0], [0, 1, 2], sorted(BASES) if t else ['', '.koi8-r'], one if t else [[1], [2, 7], [9, 10]], modes, ARGV, ['\n', '\r\n'], ['none', 'define']), check_good,
               'every way to read, whatever runs'),
        Family('settings', Prod([0, 3], [0, 1], ['', '.latin-1'], one, modes, ['plain.py', 'other.py'], ['\n'], sorted(SETTINGS)), check_good, 'settings of the file'),
        Family('failing', Map(flat, Prod([0, 3], [0, 1], ['', '.latin-1'], BAD, [0, 1, 2], modes, ARGV if t else ['plain.py', 'other.py', 'm.py'])), check_bad, 'translations and codes that fail'),
        Family('undeclared', Prod(range(len(PLAIN)), ex + ['translate'], ARGV), check_plain, 'files that do not declare the codec'),
        Family('unknown', Prod(range(len(UNKNOWN)), leads, sorted(EXEC)), check_unknown, 'other codecs'),
        Family('graphs', Prod(Map(list, Words('yps', 3, 1)), [0, 1], ['a.py', 'plain.py', 'other.py', '-c', ''], [0, 1]), check_set, 'modules that import each other'),
        Family('processes', Sum(Prod([0, 2, 5], [0, 1, 2, 3], ['', '.latin-1', '.utf-8'], [[1, 9]] if not t else [[1, 9], [2, 3], [4, 11]], ['script', 'import', 'module', 'command', 'dot', 'abs'] if t else ['script', 'import'], [None]),
                                Prod([0], [0, 1], [''], [[1]], ['script', 'import', 'module', 'command'], [x for x in range(len(BAD)) if x != 1] if t else [0, 2, 4, 7]),
                                Prod([0], [0, 1], [''], one if t else [[4], [5], [7], [11]], ['script', 'module', 'command', 'abs'], [None])), check_script, 'fresh processes'),
    ]
