"""C26: tracebacks of translated Python code show the code that was executed."""
import importlib
import importlib.util
import io
import itertools
import logging
import os
import re
import subprocess
import sys
import traceback

from engine import Family, Map, Prod, REPO, Sum, Violation, Words
import harness as h
import c15
from c15 import PYTHON, put
from yupp.pylib import yutraceback

LEVEL = 'exploration'
RULE = ('every chain of up to three modules or a script and modules, translated with every kind of header or plain, with every layout of '
        'the lines before and around the call, fails in every way and is shown through every interface of the standard module; the '
        'text must be the one the standard module shows when the generated files themselves are executed in place of their '
        'sources, without the package; distinct = different tracebacks')
ASSUMPTIONS = ['the interpreter is the one the repository is tested with', 'files are not changed between their execution and the traceback, nor lose their declaration in a process',
               'frames of the import system are not compared within one process']

# -- an unchanged copy of the standard module
_spec = importlib.util.spec_from_file_location('yv_traceback', traceback.__file__)
standard = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(standard)

HEAD = {'p': '', 'P': '# coding: utf-8\n# a\n', '1': '# coding: yupp\n', '2': '#!/usr/bin/env python\n# coding: yupp\n', 'b': '# coding: yupp.latin-1\n', 'B': '#!x\n# -*- coding: yupp.utf-8 -*-\n',
        'e': '\n# coding: yupp\n', 'r': '# remark\n# coding: yupp\n', 's': ' \n#coding=yupp\n'}
PLAIN = 'pP'
# -- lines before; in a plain file the second text
ABOVE = [('', ''), ('($set k 3)\n', 'k = 3\n'), ('($ (1 2 3) \\p.[\nx = ($p)\n])\n', 'x = 1\n\n\n'), ('q = """\n\n\n\n\n"""\n', 'q = """\n\n\n\n\n"""\n'), ('($set M \\q.[\nz = 1\nz = ($q)\n])\n($M 1)\n', 'z = 2\n'),
         ('import os\n', 'import os\n'), ('($set k [\n\n])\n\n\n\nimport os\n', '\n\n\n'), ('($import "lib.yu")\n', '')]
# -- functions that call @
FUN = ['def f():\n    @\n', 'def f():\n    return (\n        1,\n        @,\n        2)\n', 'f = lambda: @\n', 'def f(n=5):\n    return f(n - 1) if n else @\n', 'class K(object):\n    def m(self):\n        @\ndef f():\n    K().m()\n',
       'def f():\n    try:\n        @\n    finally:\n        x = 1\n', 'def f():\n    try:\n        @\n    except Exception as e:\n        raise RuntimeError("again")\n',
       'def f():\n    try:\n        @\n    except Exception as e:\n        raise RuntimeError("of") from e\n', 'def f():\n    try:\n        @\n    except Exception as e:\n        e.args = ("c",)\n        raise\n',
       'def f():\n    for i in [1]:\n        [@ for j in [1]]\n', 'def f():\n    a = 1\n    b = "t"\n    @\n', 'def f():\n    exec(\'\'\'@\'\'\')\n', 'def f():\n    def g():\n        yield @\n    next(g())\n',
       'def f(n=4):\n    return [f(n - 1) for j in [1]] if n else @\n', 'def f(n=4):\n    try:\n        return f(n - 1) if n else @\n    except Exception as e:\n        raise ValueError(n)\n']
FUN_Y = ['def f():\n    x = ($add 1 2)\n    ($ [\n@\n    ])\n', '($set n [f])\ndef ($n)():\n    ($ (1 2) \\p.[\n    x = ($p)\n    ])\n    @\n', '($set D \\b.[\ndef f():\n    ($b)\n])\n($D [@])\n',
         'def f(): # ($add 1 2)\n    x = [\n($ (1 2) \\p.[\n    ($p),\n])    ]\n    @\n', 'def f():\n    "\xe9"; @\n']
# -- ways to fail (expressions)
FAIL = ['1 / 0', 'int("q")', '{}["k"]', '[].x', 'open("/none")', 'compile("x = = 1", "<s>", "exec")', '(_ for _ in ()).throw(KeyboardInterrupt)', 'nosuch', 'exec("raise ValueError(1)")', 'exec("import none")',
        '(_ for _ in ()).throw(ValueError("a\\nb"))', '__import__("bad")', 'max()', 'sorted([1, "a"])', 'sorted([1], key=lambda x: x / 0)']
NAMES = ['a', 'b', 'c']
APIS = ['exc', 'exception', 'extract', 'limit1', 'limit2', 'limit-1', 'locals', 'hook', 'logging', 'stack', 'chain', 'none', 'tb', 'sys1', 'sys-1', 'sys2', 'lookup']


def text_of(kind, above, fun, call, nxt):
    """Source of a module whose f() calls the next one's, or fails."""
    plain = kind in PLAIN
    t = HEAD[kind]
    if nxt:
        t += 'import %s\n' % nxt
    t += ABOVE[above][plain]
    f = (FUN if plain else FUN + FUN_Y)
    return t + f[fun % len(f)].replace('@', call)


def lay(root, kinds, above, funs, fail, settings):
    yutraceback.substitution.files.clear()
    os.chdir(root)
    put('lib.yu', '($set lv 11)')
    put('bad.py', '\n\nx = = 1\n')
    os.mkdir('out')
    os.mkdir('else')
    for i, k in enumerate(kinds):
        nxt = NAMES[i + 1] if i + 1 < len(kinds) else None
        text = text_of(k, above[i % len(above)], funs[i % len(funs)], '%s.f()' % nxt if nxt else fail, nxt)
        put(NAMES[i] + '.py', text.encode('latin-1' if k == 'b' else 'utf8'))
        if settings:
            put(NAMES[i] + '.yuconfig', settings)


def generated(root, name):
    for d in ('', 'out'):
        fn = os.path.join(os.path.realpath(root), d, name + '.yugen.py')
        if os.path.isfile(fn):
            return fn
    return None


class Finder(object):
    """Takes the generated file in place of a source."""

    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        fn = generated(self.root, name)
        return importlib.util.spec_from_file_location(name, fn) if fn else None


def fresh(root):
    importlib.invalidate_caches()
    for n in NAMES + ['bad']:
        sys.modules.pop(n, None)
    for k in [k for k in sys.path_importer_cache if k.startswith(os.path.realpath(root)) or not os.path.isabs(k)]:
        del sys.path_importer_cache[k]


def show(T, api, chdir):
    """What the module T shows of a failing call."""
    out = io.StringIO()
    try:
        m = importlib.import_module('a')
        if chdir:
            os.chdir(chdir)
        m.f()
    except BaseException:
        et, e, tb = sys.exc_info()
        if api == 'exc':
            return T.format_exc()
        if api == 'exception':
            T.print_exception(et, e, tb, file=out)
            return out.getvalue()
        if api == 'extract':
            return repr([tuple(x) for x in T.extract_tb(tb)])
        if api.startswith('limit'):
            return ''.join(T.format_exception(et, e, tb, limit=int(api[5:])))
        if api.startswith('sys'):
            sys.tracebacklimit = int(api[3:])
            try:
                return ''.join(T.format_exception(et, e, tb)) + repr(T.extract_tb(tb, 2))
            finally:
                del sys.tracebacklimit
        if api == 'lookup':
            return ''.join(T.TracebackException(et, e, tb, lookup_lines=False).format())
        if api == 'locals':
            x = T.TracebackException(et, e, tb, limit=-1, capture_locals=True)
            return ''.join(x.format())
        if api == 'hook':
            old, sys.stderr = sys.stderr, out
            try:
                if T is standard:
                    T.print_exception(et, e, tb)
                else:
                    sys.excepthook(et, e, tb)
            finally:
                sys.stderr = old
            return out.getvalue()
        if api == 'logging':
            logging.Formatter.formatException
            T.print_exception(et, e, tb, None, out)
            return out.getvalue()
        if api == 'stack':
            s = []
            while tb:
                f = tb.tb_frame
                tb = tb.tb_next
            return ''.join(T.format_stack(f, limit=3)) + repr(T.extract_stack(f, 2)) if T else ''
        if api == 'chain':
            return ''.join(T.format_exception(et, e, tb, chain=False))
        if api == 'none':
            return ''.join(T.format_exception_only(et, e))
        if api == 'tb':
            T.print_tb(tb, file=out)
            T.print_list(T.extract_tb(tb), out)
            return out.getvalue() + ''.join(T.format_list(T.StackSummary.from_list([tuple(x) for x in T.extract_tb(tb)])))
    raise Violation('nothing failed')


def import_frames(text):
    """Without the entries of the import system."""
    text = re.sub(r'at 0x[0-9a-f]+', 'at 0x', text)
    res, skip = [], False
    for ln in text.split('\n'):
        if ln.startswith('  File "'):
            skip = 'importlib' in ln
        elif not ln.startswith('    '):
            skip = False
        if not skip:
            res.append(ln)
    return '\n'.join(res)


def attempt(root, how, T, api, chdir, finder):
    """The text shown; from the sources, or (finder) from the generated files."""
    where = {'abs': os.path.realpath(root), 'rel': '.', 'link': os.path.realpath(root) + '-ln'}[how]
    state = sys.path[:], sys.meta_path[:], sys.argv[:], sys.dont_write_bytecode, sys.stdout, sys.stderr
    os.chdir(root)
    sys.path.insert(0, where)
    sys.argv[:] = ['x.py']
    sys.dont_write_bytecode = True
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    if finder:
        sys.meta_path.insert(0, Finder(root))
    fresh(root)
    try:
        return import_frames(show(T, api, chdir))
    finally:
        fresh(root)
        os.chdir(root)
        sys.path[:], sys.meta_path[:], sys.argv[:], sys.dont_write_bytecode, sys.stdout, sys.stderr = state


def check_chain(case, ctx):
    kinds, above, funs, fail, api, how, settings, chdir, again = case
    root = ctx.dir()
    if how == 'link':
        if not os.path.islink(root + '-ln'):
            os.symlink(root, root + '-ln')
    lay(root, kinds, above, funs, FAIL[fail], settings)
    got = ''
    for t in range(1 + again):
        if t:
            # -- the sources change, with them the lines
            for i, k in enumerate(kinds):
                with open(NAMES[i] + '.py', 'rb') as f:
                    b = f.read()
                n = len(HEAD[k].encode())
                put(NAMES[i] + '.py', b[:n] + b'import sys\n\nimport os\n' + b[n:])
                os.utime(NAMES[i] + '.py', (2e9 + t, 2e9 + t))
        got = attempt(root, how, traceback, api, os.path.join(root, 'else') if chdir else None, False)
        for i, k in enumerate(kinds):
            if (generated(root, NAMES[i]) is None) != (k in PLAIN):
                raise Violation('files of %r: generated %r' % (kinds, os.listdir('.')))
        want = attempt(root, how, standard, api, os.path.join(root, 'else') if chdir else None, True)
        if got != want:
            texts = []
            for n in NAMES[:len(kinds)]:
                with open(n + '.py', 'rb') as f:
                    texts.append(f.read())
            raise Violation('modules %r, time %d, shown by %s:\n%s\nexpected\n%s' % (texts, t + 1, api, got, want))
    return got.replace(root, '')


SITE_A = '''import builtins, sys
sys.dont_write_bytecode = True
import yupp
'''
SITE_B = '''import sys, os
sys.dont_write_bytecode = True
import importlib.util
class Finder(object):
    def find_spec(self, name, path=None, target=None):
        for d in ('', 'out/'):
            fn = os.path.join(%r, d + name + '.yugen.py')
            if os.path.isfile(fn):
                return importlib.util.spec_from_file_location(name, fn)
sys.meta_path.insert(0, Finder())
'''
MAIN = {'call': 'f()\n', 'top': '@\n', 'hook': 'import traceback\ntry:\n    f()\nexcept Exception:\n    traceback.print_exc()\nf()\n', 'thread': 'import threading\nt = threading.Thread(target=f, name="T")\nt.start()\nt.join()\n',
        'exit': 'import atexit\natexit.register(f)\n', 'stack': 'import traceback\ndef g():\n    traceback.print_stack()\n    f()\ng()\n', 'chdir': 'import os\nos.chdir("else")\nf()\n', 'log': 'import logging\ntry:\n    f()\nexcept Exception:\n    logging.exception("m")\n',
        'main': 'if __name__ == "__main__":\n    f()\n', 'syntax': '__import__("bad")\n', 'unraisable': 'class D(object):\n    def __del__(self):\n        f()\nimport gc\nd = D()\ndel d\ngc.collect()\n'}


def check_script(case, ctx):
    """A script of a fresh process, compared with the generated script without the package."""
    kinds, above, funs, fail, main, how = case
    root = ctx.dir()
    lay(root, kinds, above, funs, FAIL[fail], None)
    with open('a.py', 'ab') as f:
        f.write(MAIN[main].replace('@', FAIL[fail]).encode())
    os.mkdir('A')
    os.mkdir('B')
    os.symlink(REPO, 'A/yupp')
    put('A/sitecustomize.py', SITE_A)
    put('B/sitecustomize.py', SITE_B % os.path.realpath(root))
    put('run.py', 'import a\na.f()\n')

    def run(side, fn):
        args = {'script': [fn], 'abs': [os.path.join(os.path.realpath(root), fn)], 'import': ['run.py'], 'command': ['-c', 'import a\na.f()'], 'module': ['-m', fn[:-3]]}[how]
        env = dict(os.environ, PYTHONPATH=os.path.join(root, side))
        p = subprocess.run([PYTHON] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=root, timeout=100)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')

    got = run('A', 'a.py')
    if kinds[0] in PLAIN:
        want = run('B', 'a.py')
    else:
        gen = generated(root, 'a')
        if gen is None:
            raise Violation('script %r gives no generated file: %r' % (kinds, got))
        want = run('B', 'a.py' if how == 'module' else os.path.basename(gen))
    for side in (0,):
        g, w = [re.sub(r'at 0x[0-9a-f]+', 'at 0x', x) if i == 2 else x for i, x in enumerate(got)], [re.sub(r'at 0x[0-9a-f]+', 'at 0x', x) if i == 2 else x for i, x in enumerate(want)]
        if how == 'script' and kinds[0] not in PLAIN:
            # -- the generated script is named by its whole path
            w[2] = w[2].replace('File "a.yugen.py"', 'File "%s"' % generated(root, 'a'))
        if how == 'module':
            g[2], w[2] = import_frames(g[2]), import_frames(w[2])
        if g != w:
            with open('a.py', 'rb') as f:
                t = f.read()
            raise Violation('script %r (modules %r) run as %s:\n%s\n%s\nexpected\n%s\n%s' % (t, kinds, how, g[:2], g[2], w[:2], w[2]))
    return re.sub(r'at 0x[0-9a-f]+', 'at 0x', got[2].replace(root, ''))


def check_syntax(case, ctx):
    """A translation that is not Python: the report names the generated text's line."""
    kind, above, fun, bad, how = case
    root = ctx.dir()
    lay(root, [kind], [above], [fun], 'None', None)
    with open('a.py', 'rb') as f:
        src = f.read()
    src += BAD[bad].encode()
    put('a.py', src)
    err = io.StringIO()
    sys.argv, old = ['x.py' if how == 'import' else 'a.py'], (sys.argv, sys.stderr, sys.path[:], sys.stdout)
    sys.stderr = err
    sys.stdout = io.StringIO()
    sys.dont_write_bytecode = True
    del h.LOG.rec[:]
    fresh(root)
    sys.path.insert(0, root)
    try:
        if how == 'import':
            importlib.import_module('a')
        else:
            with open('a.py', encoding=c15.declares(src.decode('latin-1'))) as f:
                f.read()
    finally:
        sys.argv, sys.stderr, sys.path[:], sys.stdout = old
        fresh(root)
    gen = generated(root, 'a')
    if gen is None:
        raise Violation('%r gives no generated file: %r %r' % (src, err.getvalue(), h.LOG.rec))
    with open(gen, 'rb') as f:
        text = f.read().decode('utf8')
    try:
        compile(text, gen, 'exec')
    except SyntaxError as e:
        want = standard.format_exception_only(type(e), e)
        line = e.lineno
    else:
        raise Violation('%r: the text is valid: %r' % (src, text))
    got = err.getvalue()
    norm = got.replace('"a.yugen.py"', '"%s"' % gen)
    if norm.rstrip('\n') != ''.join(want).rstrip('\n'):
        raise Violation('%r read by %s reports\n%s\nexpected\n%s' % (src, how, got, ''.join(want)))
    return line, got.replace(root, '')


BAD = ['x = = 1\n', ' y\n', '($add 1 2) 3\n', 'def g(:\n', '($ (1 2) \\p.[\nx ($p)\n])\n', 'x = (\n', '"\n', 'return ($add 1 2) 5\n', 'if 1:\nx\n', '\tx\n  y\n']


def families(tier):
    t = tier == 'thorough'
    K = sorted(HEAD)
    nf, na = len(FUN) + len(FUN_Y), len(ABOVE)
    one = Map(list, Words(K, 1, 1))
    two = Map(list, Words(K if t else 'p12be', 2, 2))
    three = Map(list, Words(K if t else 'p12B', 3, 3))
    A0 = ['exc', 'extract', 'limit-1', 'locals']
    return [
        Family('places', Prod(one, Map(lambda x: [x], range(na)), Map(lambda x: [x], range(nf)), [0] if not t else range(len(FAIL)), APIS if t else ['exc', 'extract'], ['abs'], [None], [0], [0, 1]), check_chain,
               'every line of every kind of file'),
        Family('failures', Prod(one if t else Map(list, 'p12b'), [[1], [2]], Map(lambda x: [x], range(nf) if t else [0, 1, 3, 7, 11, 13, 14, 16]), range(len(FAIL)), APIS, ['abs'], [None], [0], [0]), check_chain, 'every failure through every interface'),
        Family('pairs', Prod(two, Map(list, Words(range(na) if t else [0, 2, 3], 2, 2)), Map(list, Words([0, 1, 3, 6, 13, 16, 18] if t else [0, 3, 16], 2, 2)), [0], A0 if t else ['exc'], ['abs'], [None], [0], [0]), check_chain, 'every pair of modules'),
        Family('triples', Prod(three, [[0, 1, 2], [3, 2, 1], [6, 4, 0]], [[0, 15, 1], [7, 0, 16], [3, 4, 18]], [0, 8], A0, ['abs'], [None], [0], [0]), check_chain, 'every three modules'),
        Family('paths', Prod(Sum(one, two), [[2, 0], [0, 3]], [[0, 15]], [0], ['exc', 'extract', 'hook'], ['abs', 'rel', 'link'], [None, "output_dir = 'out'\n", 'read_only = False\npp_browse = True\n', 'pp_reduce_emptiness = False\n'], [0, 1], [0, 1]),
               check_chain, 'every way to name the files'),
        Family('scripts', Sum(Prod(Sum(one, Map(list, Words('p12', 2, 2))) if not t else Sum(one, two), [[2, 0]] if not t else [[2, 0], [0, 3]], [[0, 15]], [0], ['call', 'top', 'stack', 'main'] if not t else sorted(MAIN), ['script']),
                              Prod(Map(list, '12'), [[2]], [[0]], [0, 6, 10] if not t else range(len(FAIL)), sorted(MAIN), ['script', 'abs']),
                              Prod(Map(list, '12p' if not t else ''.join(K)), [[3]], [[15]], [0], ['main', 'top'], ['script', 'abs', 'import', 'command', 'module'])), check_script, 'scripts of fresh processes'),
        Family('syntax', Prod([k for k in K if k not in PLAIN], range(na), range(nf) if t else [0, 15, 17], range(len(BAD)), ['import', 'open']), check_syntax, 'translations that are not Python'),
    ]
