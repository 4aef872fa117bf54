"""C14: cached translations are always current."""
import io
import os

from engine import Family, Map, Prod, Seq, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('the reachable states (contents and order of the times of the source, an imported source, the settings, the saved '
        'translation) of a model of edits, touches, deletions and imports are enumerated completely; in each of them the '
        'files are laid out and the real import translation is run: the text served and the files left must be those of '
        'a successor state; histories run in one process as well; distinct = (state, served, saved)')
ASSUMPTIONS = ['clocks do not go back and nobody gives a file an older time',
               'every other file a translation is made from is declared as a dependency',
               'the saved translation is written by the import hook only']

T0 = 1500000000
SRC, MOD, CFG, FCFG, OUT = range(5)
FILES = ['m.yu-py', 'mod.yu', '.yuconfig', 'm.yuconfig', 'm.py']

TEXT = {
    (SRC, 1): '# coding: yupp\n($import "mod.yu")A = 1, ($m), ($D)\n',
    (SRC, 2): '# coding: yupp\n($import "mod.yu")B = 2, ($m), ($D)\n',
    (SRC, 'broken'): '# coding: yupp\n($import "mod.yu")A = ($m\n',
    (MOD, 1): '($set m (`M1))', (MOD, 2): '($set m (`M2))', (MOD, 'broken'): '($set m',
    (CFG, 1): "dependency.append('.yuconfig')\ndependency.append('mod.yu')\npp_define.append('D:11')\n",
    (CFG, 2): "dependency += ['mod.yu', '.yuconfig']\npp_define.append('D:22')\n",
    (FCFG, 'force'): 'force = True\n', (FCFG, 'plain'): 'force = False\n',
}


def translation(src, mod, cfg):
    """What a fresh translation holds, None for a failure."""
    if src == 'broken' or mod in (None, 'broken'):
        return None
    return '\n%s = %d, M%d, %d\n' % ('AB'[src - 1], src, mod, cfg * 11)


# ---------------------------------------------------------------- the model
# a state: tuple of (content, time rank) by file; content None: absent; content of OUT: (src, mod, cfg)
def normal(st):
    ranks = {t: i for i, t in enumerate(sorted({t for c, t in st if c is not None}))}
    return tuple((c, ranks[t]) if c is not None else (None, -1) for c, t in st)


def later(st, fresh_tick):
    """The time of an operation: a new one, or that of the latest one."""
    top = max(t for _, t in st)
    return top + 1 if fresh_tick else top


def change(st, f, content, tick):
    s = list(st)
    s[f] = (content, later(st, tick))
    return normal(s)


def served(st):
    """State after an import: (text served or None, [possible states])"""
    text = translation(st[SRC][0], st[MOD][0], st[CFG][0])
    if text is None:
        return None, [st]
    saved = (st[SRC][0], st[MOD][0], st[CFG][0])
    succ = [change(st, OUT, saved, tick) for tick in (False, True)]
    if st[OUT][0] == saved and all(st[f][1] < st[OUT][1] for f in (SRC, MOD, CFG)) and st[FCFG][0] != 'force':
        succ.append(st)
    return text, succ


def successors(st):
    out = []
    for tick in (False, True):
        for c in (1, 2, 'broken'):
            out.append(change(st, SRC, c, tick))
        for c in (1, 2, 'broken'):
            out.append(change(st, MOD, c, tick))
        for c in (1, 2):
            out.append(change(st, CFG, c, tick))
        for c in ('force', 'plain'):
            out.append(change(st, FCFG, c, tick))
        for f in (SRC, MOD, CFG, OUT):
            # -- touch; a touched output is only a current one
            if st[f][0] is not None and (f != OUT or st[OUT][0] == tuple(st[x][0] for x in (SRC, MOD, CFG))):
                out.append(change(st, f, st[f][0], tick))
    for f in (MOD, FCFG, OUT):
        s = list(st)
        s[f] = (None, -1)
        out.append(normal(s))
    out += served(st)[1]
    return out


def reachable(limit=None):
    first = normal([(1, 0), (1, 0), (1, 0), (None, -1), (None, -1)])
    seen = {first: 0}
    todo = [first]
    n = 0
    for st in todo:
        if limit is not None and seen[st] >= limit:
            continue
        for s in successors(st):
            n += 1
            if s not in seen:
                seen[s] = seen[st] + 1
                todo.append(s)
    return todo, n


# ---------------------------------------------------------------- the real code
def lay(root, st, step):
    for f, (c, t) in enumerate(st):
        if c is None:
            continue
        p = os.path.join(root, FILES[f])
        with io.open(p, 'w', encoding='utf8') as x:
            x.write(translation(*c) if f == OUT else TEXT[f, c])
        ns = int((T0 + t * step) * 1000000) * 1000
        os.utime(p, ns=(ns, ns))
    if st[OUT][0] is not None:
        os.chmod(os.path.join(root, 'm.py'), 0o444)


def content(p):
    if not os.path.isfile(p):
        return None
    with io.open(p, encoding='utf8') as f:
        return f.read()


def serve(entry):
    """(ok, text)"""
    if entry == 'stream':
        with open('m.yu-py', 'r') as f, h.captured():
            ok, text, fn, shrink = h.yup.proc_stream(f, 'm.yu-py')
        return ok, text
    (ok, fn), _, _ = h.proc_file('m.yu-py')
    return ok, content(fn) if ok else None


def judge(want, got, what):
    ok, text = got
    if ok != (want is not None):
        raise Violation('%s\nsuccess is %r, expected %r' % (what, ok, want is not None))
    if ok and text != want:
        raise Violation('%s\nserved %r, expected %r' % (what, text, want))


def state(case, ctx):
    """One import in one state."""
    st, entry, step = case
    st = tuple((tuple(c) if isinstance(c, (list, tuple)) else c, t) for c, t in st)
    root = ctx.dir()
    old = os.getcwd()
    os.chdir(root)
    try:
        lay(root, st, step)
        before = os.stat('m.py') if os.path.isfile('m.py') else None
        want, succ = served(st)
        what = 'state %s (entry %s)' % (', '.join('%s: %s at %d' % (FILES[f], c, t) for f, (c, t) in enumerate(st)), entry)
        judge(want, serve(entry), what)
        after = os.stat('m.py') if os.path.isfile('m.py') else None
        kept = before and after and (before.st_ino, before.st_mtime) == (after.st_ino, after.st_mtime)
        out = content('m.py')
        if want is not None:
            if out != want:
                raise Violation('%s\nthe saved translation is %r' % (what, out))
            if kept and st not in succ:
                raise Violation('%s\nthe saved translation is reused' % what)
        elif st[OUT][0] is not None and out != translation(*st[OUT][0]):
            raise Violation('%s\nthe saved translation has become %r' % (what, out))
        for f in (SRC, MOD, CFG, FCFG):
            if content(FILES[f]) != (None if st[f][0] is None else TEXT[f, st[f][0]]):
                raise Violation('%s\n%s has changed' % (what, FILES[f]))
        ctx.state(st)
        ctx.count('traces_validated_against_impl')
        return (bool(want), bool(kept), before is not None)
    finally:
        os.chdir(old)


OPS = ['src1', 'src2', 'srcB', 'srcT', 'mod1', 'mod2', 'mod-', 'cfg1', 'cfg2', 'force', 'noforce', 'out-', 'import']


def history(case, ctx):
    """A history in one process; '.' before an operation: at the same time as the one before."""
    ops, entry, tick = case
    root = ctx.dir()
    old = os.getcwd()
    os.chdir(root)
    done = []
    now = [T0]
    cur = {SRC: 1, MOD: 1, CFG: 1}

    def put(f, c):
        with io.open(FILES[f], 'w', encoding='utf8') as x:
            x.write(TEXT[f, c])
        os.utime(FILES[f], (now[0], now[0]))

    try:
        for f in (SRC, MOD, CFG):
            put(f, 1)
        for op in ['import'] + list(ops) + ['import']:
            done.append(op)
            if tick == 'always' or tick == 'imports' and op == 'import' or tick == 'after' and done[-2:-1] == ['import']:
                now[0] += 1
            if op == 'import':
                before = os.stat('m.py') if os.path.isfile('m.py') else None
                judge(translation(cur[SRC], cur[MOD], cur[CFG]), serve(entry),
                      'history %s (clock advances: %s)' % (' '.join(done), tick))
                after = os.stat('m.py') if os.path.isfile('m.py') else None
                if after and not (before and (before.st_ino, before.st_mtime) == (after.st_ino, after.st_mtime)):
                    os.utime('m.py', (now[0], now[0]))
                ctx.count('transitions')
            elif op == 'out-':
                if os.path.isfile('m.py'):
                    os.chmod('m.py', 0o644)
                    os.unlink('m.py')
            elif op == 'mod-':
                if cur[MOD]:
                    os.unlink('mod.yu')
                    cur[MOD] = None
            elif op == 'srcT':
                os.utime('m.yu-py', (now[0], now[0]))
            elif op in ('force', 'noforce'):
                put(FCFG, 'force' if op == 'force' else 'plain')
            else:
                f = {'s': SRC, 'm': MOD, 'c': CFG}[op[0]]
                c = 'broken' if op[3] == 'B' else int(op[3])
                if cur[f] != c:
                    cur[f] = c
                    put(f, c)
        return tuple(sorted(cur.items(), key=str))
    finally:
        os.chdir(old)


def families(tier):
    t = tier == 'thorough'
    states, n = reachable()
    return [
        Family('states', Prod(Seq(states), ['stream', 'file'] if t else ['stream'], [1, 0.001] if t else [0.001]), state,
               'every reachable state of the model (%d transitions in the model)' % n),
        Family('histories', Prod(Map(list, Words(OPS, 5 if t else 3)), ['stream', 'file'] if t else ['file'],
                                 ['always', 'never', 'imports', 'after']), history, 'every history in one process'),
    ]
