"""C25: the interactive mode evaluates each entry on its own."""
import io
import os
import pickle
import subprocess
import sys

from engine import Family, Map, Prod, REPO, Sum, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('every sequence of entries, control lines and partial lines up to a length, under every option the command passes on, is fed '
        'to the real loop; what is printed, logged and returned after each line must be that of the model of the session, where '
        'the result of an entry is the one its text has as the only translation of a fresh process; distinct = different outputs')
ASSUMPTIONS = ['an entry that ends the process or never ends (a recursion without end) is excluded',
               'the spelling of the prompts and marks around a result is that of the first session of the process']

# -- lines of entries; each is followed by the line that evaluates it
ENTRIES = [
    ['a'], ['($set x 1)($x)'], ['($x)'], ['($macro M (p) [($p)])($M 1)'], ['($M 1)'], ['($import stdlib)($range 3)'], ['($range 2)'], ['($import "lib.yu")($lv)'], ['($import lib)($lv)'],
    ['($lv)'], ['($set l (1 2))($emit l)($l)'], ['($add 1 "s")'], ['($'], [''], ['  ', '\t'], ['($__PASSAGE__ (1 2 3))'], ['($set __OUTPUT_FILE__ "o.txt")q'], ['($div 1 0)'], ['($ \\p.(p 1))'],
    ['($strlen q)'], ['a($skip)z'], ['($SPACE)x($TAB)'], ['($__FILE__)|($__OUTPUT_FILE__)|($__MODULE_NAME__)'], ['# coding: yupp', 'b'], ['($import { "($set v 4)e" })($v)'], ['($import "s.py")($sf 1)'],
    ['($sf 1)'], ['x ]', '($ [)'], ['t', '', '', '  u  '], ['($import none)'], ['($add 1', '2)'], ['($K)($isatom K)'], ['  ($ [ a', '    b', '  ])', 'c'], ['/* ($add 1 2) */', '// ($x)'], ['($dbg)($nosuch 1)'],
    ['"s" \'t\''], ['\xe9\u0416($add "\xe9" "z")'], ['x\x0by'], ['test it', 'exit ($add 1 1)'], ['($x', ')'], ['($print "p")r'], ['($ {1/0})'], ['(`a'], ['($set add \\p.p)($add 5)'], ['($add 1 2)'],
]
CONTROL = {'test': ['test'], 'test2': ['  test\t'], 'exit': ['exit'], 'exit2': [' exit '], 'TEST': ['TEST'], 'part': ['k ($add 1 1)'], 'open': ['($add 1'], 'blank': ['']}
OPTIONS = {'plain': ['-q'], 'loud': [], 'define': ['-q', '-D', 'K:5'], 'notrim': ['-q', '--pp-no-trim-app-indent', '--pp-no-reduce-emptiness'], 'comments': ['-q', '--pp-skip-comments', '1'],
           'browse': ['-q', '--pp-browse'], 'dir': ['-q', '-d', 'lib1'], 'out': ['-q', '-o', 'out', '--type-file'], 'nowarn': ['-q', '-Wno-unbound'], 'tb': ['-q', '-b', '2'],
           'text': ['-q', '-i', '($set x 9)($macro M (p) <($p)>)($import lib)t'], 'textbad': ['-q', '-i', '($add 1']}
CFG = {'define': dict(pp_define=['K:5']), 'notrim': dict(pp_trim_app_indent=False, pp_reduce_emptiness=False), 'comments': dict(pp_skip_comments=1), 'dir': dict(directory=['lib1']),
       'nowarn': dict(warn_unbound_application=False), 'out': dict(), 'browse': dict()}


# --------------------------------------------------------------------------- results in a fresh process
class Zygote(object):
    """A process that has translated nothing; each request is answered by a fork of it."""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            try:
                self.serve(os.fdopen(a, 'rb'), os.fdopen(d, 'wb'))
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, 'wb'), os.fdopen(c, 'rb')
        self.memo = {}

    def serve(self, r, w):
        while True:
            try:
                cwd, text, cfg, tb = pickle.load(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    os.chdir(cwd)
                    h.reset_shell()
                    if tb is not None:
                        h.yup.shell.traceback = tb
                    with h.captured() as cap:
                        h.configure(**cfg)
                        ok, plain = h._translate(text, None, None)
                    res = (bool(ok), str(plain) if plain else '', [x for x in cap.logs if x[0] >= 30], cap.stdout)
                    pickle.dump(res, w)
                    w.flush()
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, cwd, text, cfg, tb=None):
        k = (text, repr(sorted(cfg.items())), tb)
        if k not in self.memo:
            pickle.dump((cwd, text, cfg, tb), self.w)
            self.w.flush()
            self.memo[k] = pickle.load(self.r)
        return self.memo[k]


ZYGOTE = {}


def put(n, t):
    d = os.path.dirname(n)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(n, 'wb') as f:
        f.write(t.encode('utf8'))


def setup(ctx):
    if os.getpid() not in ZYGOTE:
        ZYGOTE.clear()
        ZYGOTE[os.getpid()] = Zygote()
    os.chdir(ctx.scratch)
    tree()


def tree():
    put('lib.yu', '($set lv 7)L')
    put('lib1/lib2.yu', '($set lv 8)')
    put('s.py', 'def sf(x):\n    return x + 10\n')


# --------------------------------------------------------------------------- the session
class Stdin(io.StringIO):
    """Notes what has been printed and logged when a line is asked for."""

    def readline(self, *a):
        SEEN.append((len(sys.stdout.parts), len(h.LOG.rec)))
        return io.StringIO.readline(self, *a)


SEEN = []


def session(args, data):
    """(rc, [printed before each line is read, and after the last], [logged])"""
    del SEEN[:]
    old = sys.stdin
    sys.stdin = Stdin(data)
    try:
        with h.captured() as cap:
            try:
                rc = h.yup.cli(list(args))
            except BaseException as e:
                rc = 'raised %s: %s' % (type(e).__name__, e)
    finally:
        sys.stdin = old
        h.reset_shell()
    outs, logs = [], []
    a = b = 0
    for p, q in SEEN + [(len(cap.out.parts), len(cap.logs))]:
        outs.append(''.join(cap.out.parts[a:p]))
        logs.append([x for x in cap.logs[b:q] if x[0] >= 30])
        a, b = p, q
    return rc, outs, logs


def check_session(case, ctx):
    seq, opt, eof = case
    lines = []
    for t in seq:
        if isinstance(t, int):
            lines += ENTRIES[t] + ['test']
        else:
            lines += CONTROL[t]
    data = '\n'.join(lines) + ('\n' if eof == 'line' and lines else '')
    lines = data.split('\n')
    if not lines[-1]:
        lines.pop()
    return run(lines, opt, data, ctx)


PROMPT, OKAY, OUTM = h.yup.PROMPT, h.yup.OK, h.yup.PP_O


def run(lines, opt, data, ctx):
    os.chdir(ctx.scratch)
    z = ZYGOTE[os.getpid()]
    cfg = CFG.get(opt, {})
    tb = 2 if opt == 'tb' else None
    rc, outs, logs = session(OPTIONS[opt], data)
    info = 'options %r, lines %r' % (OPTIONS[opt], lines)
    if rc != 0:
        raise Violation('%s\nthe session ends with %r' % (info, rc))
    # -- the model
    buf, n, results = '', 0, []
    ended = False
    for line in lines:
        s = line.strip()
        n += 1
        if s == 'exit':
            ended = True
            break
        if s == 'test':
            ctx.state((opt, buf))
            want = z.ask(ctx.scratch, buf, cfg, tb) if buf.strip() else None
            if n >= len(outs):
                raise Violation('%s\nthe session ends after line %d' % (info, n))
            out, lg = outs[n], logs[n]
            if want is None:
                if out.strip() not in ('', PROMPT.strip()) or lg:
                    raise Violation('%s\nan empty entry prints %r, log %r' % (info, out, lg))
            else:
                ok, plain, wl, wo = want
                text = wo + '\n' + (OUTM + ' ' + plain + '\n' if plain else '') + (OKAY + '\n' if ok else '')
                if out != text + PROMPT and out != text:
                    raise Violation('%s\nentry %r\nprints %r\nwant   %r' % (info, buf, out, text))
                if norm(lg) != norm(wl):
                    raise Violation('%s\nentry %r\nlogs %r\nwant %r' % (info, buf, lg, wl))
            buf = ''
            results.append(out)
        else:
            buf += line + '\n'
            if n < len(outs) and (outs[n].strip() not in ('', PROMPT.strip()) or logs[n]):
                raise Violation('%s\nline %d prints %r, log %r' % (info, n, outs[n], logs[n]))
    asked = len(outs) - 1
    if asked != (n if ended else n + 1):
        raise Violation('%s\n%d lines are read, not %d' % (info, asked, n if ended else n + 1))
    if outs[-1].strip() not in ('', PROMPT.strip()) or logs[-1]:
        raise Violation('%s\nthe end prints %r, log %r' % (info, outs[-1], logs[-1]))
    return tuple(results)


def norm(logs):
    # -- frames of a traceback differ in the callers
    return [(lv, [x for x in m.split('\n') if x.strip()][-6:]) for lv, m in logs]


def check_file(case, ctx):
    """The result of an entry is that of a file of the same text."""
    e, opt = case
    text = '\n'.join(ENTRIES[e]) + '\n'
    if '__FILE__' in text or '__PASSAGE__' in text or not text.strip():
        return None
    root = ctx.dir()
    os.chdir(root)
    tree()
    rc, outs, logs = session(OPTIONS[opt], text + 'test\n')
    put('e.yu-txt', text)
    frc, fout, flogs = h.cli([x for x in OPTIONS[opt] if x not in ('-o', 'out', '--type-file')] + ['e.yu-txt'])
    h.reset_shell()
    name = 'o.txt' if 'o.txt' in text else 'e.txt'
    got = outs[-2].replace(PROMPT, '') if len(outs) > 1 else ''
    if opt in ('browse',):
        # -- with browse recording blanks at line ends stay
        return None
    printed = 'P' if '($print' in text else ''
    if frc == 0:
        with open(name, encoding='utf8') as f:
            t = f.read()
        if OKAY not in got or (OUTM + ' ' + t + '\n' if t else '') not in got:
            raise Violation('entry %r prints %r, its file has %r' % (text, got, t))
    else:
        if OKAY in got:
            raise Violation('entry %r prints %r, its file fails: %r' % (text, got, flogs))
        fe = [m.replace('e.yu-txt', '<stdin>').split('\n')[1:2] for lv, m in flogs if lv >= 40]
        ge = [m.split('\n')[1:2] for lg in logs for lv, m in lg if lv >= 40]
        if fe != ge:
            raise Violation('entry %r reports %r, its file %r' % (text, ge, fe))
    return got


def check_process(case, ctx):
    """The command itself, its lines from a pipe."""
    seq, eof, enc = case
    root = ctx.dir()
    os.symlink(REPO, os.path.join(root, 'yupp'))
    os.mkdir(os.path.join(root, 'w'))
    os.chdir(os.path.join(root, 'w'))
    tree()
    lines = []
    for t in seq:
        lines += ENTRIES[t] + ['test'] if isinstance(t, int) else CONTROL[t]
    env = {k: v for k, v in os.environ.items() if not k.startswith('LC_') and k not in ('LANG', 'PYTHONIOENCODING', 'PYTHONUTF8')}
    env.update(PYTHONDONTWRITEBYTECODE='1', LC_ALL=enc, PYTHONPATH=root)
    data = '\n'.join(lines) + ('\n' if eof == 'line' else '')
    p = subprocess.run([sys.executable, '-m', 'yupp', '-q'], cwd=os.path.join(root, 'w'), env=env, input=data.encode('utf8'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    got = p.stdout.decode('utf8')
    z = ZYGOTE[os.getpid()]
    if p.returncode or p.stderr:
        raise Violation('lines %r: status %r\n%s\n%s' % (lines, p.returncode, got, p.stderr.decode('utf8', 'replace')))
    buf, at = '', 0
    for line in lines:
        s = line.strip()
        if s == 'exit':
            break
        if s == 'test':
            if buf.strip():
                ok, plain, wl, wo = z.ask(ctx.scratch, buf, {})
                text = '\n' + (OUTM + ' ' + plain + '\n' if plain else '') + (OKAY + '\n' if ok else '')
                i = got.find(text, at)
                if i < 0:
                    raise Violation('lines %r\nentry %r, no %r in\n%s' % (lines, buf, text, got[at:]))
                at = i + len(text)
            buf = ''
        else:
            buf += line + '\n'
    return got


def families(tier):
    t = tier == 'thorough'
    es = list(range(len(ENTRIES)))
    ctl = sorted(CONTROL)
    few = [1, 2, 3, 4, 7, 8, 9, 10, 11, 12, 15, 16, 18, 19, 25, 26, 29, 31, 43, 44]
    opts = sorted(OPTIONS)
    tiny = [1, 2, 4, 12, 'test', 'part', 'blank', 'exit'] + ([8, 9, 16, 18, 'open', 'test2'] if t else [])
    return [
        Family('pairs', Prod(Map(list, Words(es + ctl, 2)), ['plain'], ['line', 'none']), check_session, 'every two entries or lines', setup=setup),
        Family('three', Prod(Map(list, Words(es + ctl if t else few, 3, 3)), ['plain'], ['line']), check_session, 'every three entries', setup=setup),
        Family('long', Prod(Map(list, Words(tiny, 5, 4)), ['plain'], ['line', 'none'] if t else ['none']), check_session, 'longer sessions', setup=setup),
        Family('options', Prod(Map(list, Words(es, 2 if t else 1)) if t else Sum(Map(list, Words(es, 1)), Prod(few, few)), opts, ['line']), check_session, 'every option the command passes on', setup=setup),
        Family('files', Prod(es, [o for o in opts if o not in ('text', 'textbad', 'tb')]), check_file, 'the same text as a file', setup=setup),
        Family('process', Prod(Sum(Map(list, Words(es, 1, 1)), Prod(few[::3], few[::3])) if not t else Map(list, Words(few, 2, 1)), ['line', 'none'], ['C.UTF-8']), check_process, 'the command with a pipe', setup=setup),
    ]
