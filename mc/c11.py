"""C11: a run's result does not depend on earlier runs."""
import os
import pickle
import re
import shutil

from engine import Family, Prod, Violation, Words, Map, make_scratch, wipe
import harness as h

LEVEL = 'model_checking'
RULE = ('every sequence of runs up to a length over a set of sources and options that touch each piece of process-wide state, '
        'each sequence in a process of its own; every run must give the result (status, output files, printed text, log) it '
        'gives as the only run of a process; distinct = different results')
ASSUMPTIONS = ['sources that change the interpreter itself through inline Python are excluded']

FILES = {
    'plain.yu-c': 'A ($add 1 2)\n($set x 5)($x)\n',
    'py.yu-py': '#! /bin/sh\n# coding: yupp\nA = "a($add 1 2)" # ($x)\nB = \'\'\'($y)\'\'\'\n',
    'py2.yu-py': '# coding: yupp\nA = ($add 1 2)\n',
    'string.yu-c': '"abc\\"($add 1 2)" \'x\' ($ "a" "b")\n',
    'import.yu-c': '($import stdlib)($import stdlib)($range 3)\n',
    'local.yu-c': '($import "lib.yu")($import lib)($lv)($lm 3)\n',
    'nolocal.yu-c': '($lv) ($lm 3)\n',
    'missing.yu-c': 'a\n($import nothing)\n',
    'e/script.yu-c': '($import "x.py")($f 1) ($isatom g) {K}\n'.replace('{K}', '($K)'),
    'd/script.yu-c': '($import "x.py")($isatom f) ($g 1) ($isatom K)\n',
    'noscript.yu-c': '($isatom f) ($isatom g) ($isatom K) ($isatom D) ($isatom x)\n',
    'infix.yu-c': '($set x 5)({ x + 1 })({ len(str(x)) })\n',
    'define.yu-c': '($D) ($isatom D) ($isatom E)\n',
    'named.yu-c': '($set __OUTPUT_FILE__ "other.txt")N ($__OUTPUT_FILE__)\n',
    'passage.yu-c': '($set __OUTPUT_FILE__ ($__PASSAGE__ ("p1.txt" "p2.txt")))P ($__PASSAGE__ (1 2))\n',
    'passfail.yu-c': '($set p ($__PASSAGE__ (1 0 2)))P ($div 1 p)\n',
    'outname.yu-c': '($__OUTPUT_FILE__) ($__FILE__) ($__MODULE_NAME__) ($__TITLE__ 0)\n',
    'syntax.yu-c': 'line\n  ($set x\n',
    'eval.yu-c': 'line\n($macro M (p) ($add ($p)))\n  ($M 1)\n',
    'ast.yu-c': '($ \\p.(1 ($p)))\n($strlen q)\n',
    'inmod.yu-c': '($import "bad.yu")\n',
    'hazard.yu-c': '($set l (strlen q))ok\n',
    'hazardous.yu-c': '($import "lib.yu")($set l (strlen q add))\n($ \\p.(1 ($p)))\n',
    'unbound.yu-c': '($nofn 1 2) ($x)\n',
    'comment.yu-c': 'a /* ($add 1 2) */ b // ($add 3 4)\n# ($add 5 6)\n',
    'macro.yu-c': '($macro M (p) ($set z ($p))[($p)($z)])($M 1)($M 2)($z)\n',
    'emit.yu-c': '($set l (1 2 3))($set i 0)({$l}) ($! ) ($l)\n'.replace('({$l})', '(${} l)').replace('(${} l)', '($emit l)'),
    'loop.yu-c': '($set l (1 2 3))($l \\p.($p),)($unique (3 1 3))($reversed (1 2))\n',
    'indent.yu-c': '($set t ($! \n  ))\n   ($ \\p.p ]\n  a\n    b\n  [)\n\n\n\n   x \n',
    'print.yu-c': '($print 1 "a")x\n',
    'steady.yu-c': 'a($SPACE)($TAB)\n\n\nb\n',
    'cfg.yu-c': '($D) ($lv)\n',
    'sub/cfg.yu-py': '# coding: yupp\nA = ($D)\n',
    'empty.yu-c': '',
    'badutf.yu-c': b'\xff\n',
    'quote.yu-c': '($ `(a b)`)(`c)($("($0)-($1)") 1 2)\n',
    'cond.yu-c': '($ 1 ? (0) | 2)($set a ())($ \\b..(b))\n',
    'lib.yu': '($set lv 7)($macro lm (p) [($p)])',
    'bad.yu': 'ok\n($add\n',
    'e/x.py': 'K = 3\ndef f(x):\n    return x + 10\n',
    'd/x.py': 'def g(x):\n    return x + 20\n',
    'd/lib.yu': '($set lv 8)($set lm \\p.<($p)>)',
    'cfg.yuconfig': 'pp_define.append("D:44")\ndirectory.append("d")\n',
    'sub/cfg.yuconfig': 'pp_reduce_emptiness = False\npp_define = ["D:55"]\nforce = True\n',
}


def C(*args):
    return ('cli',) + args


def Q(*args):
    return C('-q', *args)


RUNS = [
    Q('plain.yu-c'), Q('py.yu-py'), Q('py2.yu-py'), Q('string.yu-c'), Q('import.yu-c'), Q('local.yu-c'), Q('nolocal.yu-c'),
    Q('missing.yu-c'), Q('e/script.yu-c'), Q('d/script.yu-c'), Q('noscript.yu-c'), Q('infix.yu-c'), Q('define.yu-c'),
    Q('-D', 'D:3', 'define.yu-c'), Q('-D', 'E', '-D', 'D: x', 'define.yu-c'), Q('-D', 'add:9', 'plain.yu-c'), Q('named.yu-c'),
    Q('passage.yu-c'), Q('passfail.yu-c'), Q('outname.yu-c'), Q('syntax.yu-c'), Q('eval.yu-c'), Q('ast.yu-c'), Q('inmod.yu-c'),
    Q('unbound.yu-c'), Q('-Wno-unbound', 'unbound.yu-c'), Q('comment.yu-c'), Q('--pp-skip-comments', '1', 'comment.yu-c'),
    Q('--pp-skip-comments', '2', 'comment.yu-c'), Q('--pp-skip-comments', '3', 'comment.yu-c'), Q('macro.yu-c'),
    Q('emit.yu-c'), Q('loop.yu-c'), Q('indent.yu-c'), Q('--pp-no-trim-app-indent', 'indent.yu-c'),
    Q('--pp-no-reduce-emptiness', 'indent.yu-c'), Q('--pp-browse', 'indent.yu-c'), Q('--pp-browse', 'local.yu-c'),
    Q('--pp-browse', 'macro.yu-c'), Q('print.yu-c'), Q('steady.yu-c'), Q('-d', 'd', 'local.yu-c'), Q('-d', 'd', 'cfg.yu-c'),
    Q('-o', 'out', 'plain.yu-c'), Q('--no-read-only', 'plain.yu-c'), Q('--type-file', 'plain.yu-c'), C('plain.yu-c'),
    Q('-t', '3', 'plain.yu-c'), Q('-t', '1', 'syntax.yu-c'), Q('-l', '5', 'eval.yu-c'), Q('-b', '0', 'eval.yu-c'),
    Q('-b', '2', 'eval.yu-c'), Q('empty.yu-c'), Q('badutf.yu-c'), Q('quote.yu-c'), Q('cond.yu-c'),
    Q('syntax.yu-c', 'plain.yu-c', 'named.yu-c', 'outname.yu-c'), Q('passage.yu-c', 'plain.yu-c'), C('-q', '--wrong'),
    C('-q', '-i', 'A ($add 1 2) ($D)'), C('-q', '-i', '($', '--input-source', 'z.yu-c'), C('-i', '($isatom f)', '-D', 'D:1'),
    ('proc', 'cfg.yu-c'), ('proc', 'sub/cfg.yu-py'), ('proc', 'py.yu-py'), ('proc', 'define.yu-c'), ('proc', 'eval.yu-c'),
    ('proc', 'none.yu-py'), ('proc', 'passage.yu-c'), Q('-i', '<($__PASSAGE__ (1 2 3))>', 'plain.yu-c'), ('proc', 'named.yu-c'), Q('hazard.yu-c'), Q('hazardous.yu-c'), Q('--pp-browse', 'hazardous.yu-c'),
]
# -- one for each piece of state
SMALL = [0, 1, 4, 8, 9, 10, 13, 16, 17, 18, 20, 21, 22, 25, 28, 34, 36, 38, 41, 44, 57, 59, 62, 63, len(RUNS) - 3]
BASE = []


def lay(root):
    for p, text in FILES.items():
        p = os.path.join(root, p)
        d = os.path.dirname(p)
        if not os.path.isdir(d):
            os.makedirs(d)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode('utf8'))
        os.utime(p, (1500000000, 1500000000))
    os.mkdir(os.path.join(root, 'out'))


def one(run):
    """Result of a run in the current directory, which is cleaned afterwards."""
    if run[0] == 'cli':
        rc, stdout, logs = h.cli(run[1:])
    else:
        rc, stdout, logs = h.proc_file(run[1])
    made = {}
    for d, _, fs in os.walk('.'):
        for x in fs:
            p = os.path.relpath(os.path.join(d, x), '.')
            if p not in FILES:
                with open(p, 'rb') as f:
                    made[p] = (f.read(), os.stat(p).st_mode & 0o222)
                os.chmod(p, 0o644)
                os.unlink(p)
    msgs = [(lv, re.sub(r'0x[0-9a-f]+', '0x', m)) for lv, m in logs]
    return repr(rc), stdout, msgs, made


def forked(root, runs):
    """Results of a sequence of runs in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            os.chdir(root)
            import sys
            from engine import Sink
            sys.stdout = sys.stderr = Sink()
            data = pickle.dumps([one(x) for x in runs], 2)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException as e:
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(repr(e), 2))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def base():
    if not BASE:
        scratch = make_scratch()
        try:
            root = os.path.join(scratch, 'root')
            os.mkdir(root)
            lay(root)
            for run in RUNS:
                res = forked(root, [run])
                assert not isinstance(res, str), (run, res)
                BASE.append(res[0])
        finally:
            wipe(scratch)


def show(x):
    return 'status %s, printed %r, log %r, files %r' % (x[0], x[1][-200:], x[2], {k: v[0][:200] for k, v in x[3].items()})


def history(case, ctx):
    """Every run of a sequence gives the result it gives alone."""
    root = os.path.join(ctx.scratch, 'case')
    if not os.path.isdir(root):
        lay(ctx.dir())
    got = forked(root, [RUNS[i] for i in case])
    if isinstance(got, str):
        raise Violation('runs %s: %s' % ([RUNS[i] for i in case], got))
    for n, i in enumerate(case):
        ctx.count('runs')
        if got[n] != BASE[i]:
            k = [a for a, b in enumerate(zip(got[n], BASE[i])) if b[0] != b[1]]
            raise Violation('run %s after %s\n%s\nalone (differs in %s)\n%s' % (
                RUNS[i], [RUNS[j] for j in case[:n]], show(got[n]),
                [('status', 'printed text', 'log', 'files')[x] for x in k], show(BASE[i])))
    return repr(got[-1])


def families(tier):
    t = tier == 'thorough'
    base()
    n = len(RUNS)
    p = next(x for x in range(n, 2 * n) if all(x % y for y in range(2, x)))
    # -- p is prime: the runs in steps of 1 to p - 1 put every run right after every other one
    chains = [[j * k % p % n for j in range(p)] for k in range(1, p)]
    return [
        Family('pairs', Map(list, Words(range(n), 2, 1)) if t else Prod(SMALL, range(n)), history,
               'every run after every other one (quick: after every one that leaves state behind)'),
        Family('chains', chains, history, 'all runs in one process in orders that put every run after every other', chunk=1),
        Family('again', [[i] * k for i in range(n) for k in (1, 2, 3)], history, 'every run repeated'),
        Family('triples', Map(list, Words(SMALL if t else SMALL[::3], 3, 3)), history,
               'every sequence of three of the runs that leave state behind'),
    ]
