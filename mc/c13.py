"""C13: a crash or an I/O failure never leaves a broken output in force."""
import errno
import io
import os

import fault

fault.require()

from engine import Family, Prod, Violation  # noqa: E402
import harness as h  # noqa: E402

LEVEL = 'fault_enumeration'
RULE = ('for every scenario every file operation of the real run (numbered by a preloaded injector) is made the last one '
        '(before it, after it, within each write), is made to fail, alone and with a second failure or death after it, or '
        'all later ones fail; the surviving files are judged and a normal run recovers; distinct = (operations, fault, '
        'surviving state)')
ASSUMPTIONS = ['death of the process, not of the machine: what a completed system call did stays',
               'closing a file opened for reading does not fail']

OLD = 'old output\n' * 3
LINE = 'a line of a long text'
REPEAT = '($repeat (`# ' + LINE + '\n) 500)'
BIG = ('# ' + LINE + '\n') * 500
SOURCES = {
    'small': ('A ($add 1 2) B\n', 'A 3 B\n', None),
    'empty': ('', '\n', None),
    'big': ('($add 1 2)\n' + REPEAT, '3\n' + BIG, None),
    'named': ('($set __OUTPUT_FILE__ "named.txt")N ($add 1 2)\n', 'N 3\n', 'named.txt'),
    'latin': ('\u00e9\u00e8 ($add 1 2) \u00ff\n', '\u00e9\u00e8 3 \u00ff\n', None),
    'syntax': ('A ($add 1\n', None, None),
    'eval': ('A ($add 1)\n', None, None),
    'ast': ('A ($ \\p.(1 ($p)))\n', None, None),
    'import': ('($import "mod.yu")A ($m)\n', 'A M\n', None),
}
PYSOURCES = {
    'small': ('# coding: yupp\nA = ($add 1 2)\n', 'A = 3\n', None),
    'header': ('#! /usr/bin/env python\n# coding: yupp\nA = ($add 1 2)\n', '#! /usr/bin/env python\nA = 3\n', None),
    'big': ('# coding: yupp\nA = ($add 1 2)\n' + REPEAT, 'A = 3\n' + BIG, None),
    'syntax': ('# coding: yupp\nA = ($add 1\n', None, None),
    'import': ('# coding: yupp\n($import "mod.yu")A = ($m)\n', 'A = M\n', None),
}
PRE = {'none': (None, None), 'out': (OLD, None), 'out+bak': (OLD, 'older\n'), 'bak': (None, 'older\n'), 'tmp': (OLD, None)}
WARM = []
T0 = 1500000000


def put(path, text, t):
    with io.open(path, 'w', encoding='utf8') as f:
        f.write(text)
    os.utime(path, (t, t))


class Scenario(object):
    """One run in a fresh directory."""

    def __init__(self, entry, source, pre, opt):
        self.entry, self.opt = entry, opt
        self.src, self.new, self.assigned = (PYSOURCES if entry == 'py' else SOURCES)[source]
        self.name = 'm.yu-py' if entry == 'py' else 'm.yu-c'
        self.out = self.assigned or ('m.py' if entry == 'py' else 'm.c')
        if opt == 'dir':
            self.out = self.assigned or os.path.join('out', self.out)
        if self.entry == 'py' and self.new is not None:
            # -- what the header lines become is judged elsewhere
            o = h.translate(self.src.replace('($import "mod.yu")', '($set m (`M))'), self.name, self.out)
            assert o.ok and self.new.strip().split('\n')[-1] in o.text, (self.src, o)
            self.new = o.text
        self.pre, self.bak = PRE[pre]
        self.pre_name = pre

    def build(self, root):
        os.mkdir(os.path.join(root, 'out'))
        put(os.path.join(root, 'mod.yu'), '($set m (`M))', T0)
        put(os.path.join(root, self.name), self.src, T0 + 100)
        out = os.path.join(root, self.out)
        if self.pre is not None:
            put(out, self.pre, T0 + 50)
            os.chmod(out, 0o444)
        if self.bak is not None:
            put(out + '.bak', self.bak, T0 + 40)
            os.chmod(out + '.bak', 0o444)
        if self.pre_name == 'tmp':
            put(out + '.tmp', 'part of an out', T0 + 200)

    def act(self):
        """The run: 0 success, 1 reported failure, 2 failure without a report."""
        if self.entry == 'py':
            (ok, fn), _, logs = h.proc_file(self.name)
            if ok and not (fn and os.path.normpath(fn) == os.path.normpath(self.out)):
                return 3
        else:
            args = ['-q'] + {'dir': ['-o', 'out'], 'browse': ['--pp-browse'], 'rw': ['--no-read-only'], 'plain': []}[self.opt]
            rc, _, logs = h.cli(args + [self.name])
            ok = rc == 0
        if ok:
            return 0
        return 1 if any(lv >= 40 for lv, _ in logs) else 2

    def read(self, root, p):
        p = os.path.join(root, p)
        if not os.path.isfile(p):
            return None
        with open(p, 'rb') as f:
            return f.read().decode('utf8', 'replace')

    def fresh(self, text):
        """Is this the complete new text?"""
        if self.new is None or text is None:
            return False
        if self.opt == 'browse':
            return text.rstrip() == self.new.rstrip()
        return text == self.new

    def judge(self, root, r, what):
        """State after the run that died or failed."""
        out, bak = self.read(root, self.out), self.read(root, self.out + '.bak')
        if out is None:
            where = 'absent'
            if self.pre is not None and bak != self.pre:
                raise Violation('%s\nthe output is absent and the backup holds %r' % (what, bak and bak[:100]))
        elif self.pre is not None and out == self.pre:
            where = 'old'
        elif self.fresh(out):
            where = 'new'
        else:
            raise Violation('%s\nthe output holds %r (%d characters)' % (what, out[:100], len(out)))
        if r.status == 0 and where != 'new':
            raise Violation('%s\nsuccess is reported, but the output is %s' % (what, where))
        if r.status not in (0, 1, 137):
            raise Violation('%s\nthe run ends with %s' % (what, {
                2: 'a failure that is not reported', 3: 'the name of another output',
                98: 'an exception to the caller'}.get(r.status, r.status)))
        for p, text in ((self.name, self.src), ('mod.yu', '($set m (`M))')):
            if self.read(root, p) != text:
                raise Violation('%s\n%s has changed' % (what, p))
        return where

    def recover(self, root, what):
        """A later normal run (and another one, which may use the saved translation)."""
        for i in (1, 2):
            st = self.act()
            out = self.read(root, self.out)
            if self.new is None:
                if st != 1:
                    raise Violation('%s\nlater run %d of a failing source ends with %d' % (what, i, st))
            elif st != 0:
                raise Violation('%s\nlater run %d fails' % (what, i))
            elif not self.fresh(out):
                raise Violation('%s\nafter later run %d the output holds %r' % (what, i, out and out[:100]))
            if self.entry == 'py':
                with open(self.name, 'r') as f, h.captured():
                    ok, text, fn, _ = h.yup.proc_stream(f, self.name)
                if ok != (self.new is not None) or ok and text != self.new:
                    raise Violation('%s\nlater import is served %r %r' % (what, ok, text and text[:100]))


def at(points, r):
    return ', '.join('%s operation %d (%s)' % (fault.NAMES[how], n, r.ops[n - 1:n] or '?') for n, how, _ in points)


def plans(mode, n_ops, ops, tears):
    """All plans of a mode for a run of n_ops operations."""
    rng = range(1, n_ops + 1)
    if mode == 'die':
        for n in rng:
            yield [(n, fault.KILL_BEFORE, 0)]
            yield [(n, fault.KILL_AFTER, 0)]
            if ops[n - 1] == 'w':
                for k in tears:
                    yield [(n, fault.TEAR, k)]
    elif mode == 'fail':
        for n in rng:
            for e in (errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS):
                yield [(n, fault.FAIL, e)]
            if ops[n - 1] == 'w':
                for k in tears:
                    yield [(n, fault.SHORT, k)]
                    yield [(n, fault.SHORT, k), (n + 1, fault.FAIL, errno.ENOSPC)]
    elif mode == 'fail-on':
        for n in rng:
            for e in (errno.EIO, errno.EROFS):
                yield [(n, fault.FAIL_ON, e)]


def explore(case, ctx):
    """Every plan of a mode; for the 'pair' modes also every second fault after the first one."""
    entry, source, pre, opt, mode, tears = case
    sc = Scenario(entry, source, pre, opt)
    old = os.getcwd()
    kinds = set()

    def once(plan):
        root = ctx.dir()
        os.chdir(root)
        try:
            sc.build(root)
            r = fault.run(sc.act, root, plan)
            what = '%s %s, existing %s, %s: %s; operations %s' % (entry, source, pre, opt, at(plan, r) or 'no fault', r.ops)
            where = sc.judge(root, r, what)
            sc.recover(root, what)
            ctx.count('fault_points')
            kinds.add((tuple(h_ for _, h_, _ in plan), r.status, where))
            return r
        finally:
            os.chdir(old)

    if case[:2] not in WARM:
        # -- the forked processes start with the compiled code of this one
        WARM.append(case[:2])
        root = ctx.dir()
        os.chdir(root)
        sc.build(root)
        for _ in range(40):
            sc.act()
        os.chdir(old)
    base = once([])
    if base.status != (0 if sc.new is not None else 1):
        raise Violation('%s: without faults the run ends with %d' % (case, base.status))
    if len(base.ops) < 3:
        raise Violation('%s: only %d operations seen' % (case, len(base.ops)))
    first = 'fail' if mode.startswith('pair') else mode
    for plan in plans(first, len(base.ops), base.ops, tears):
        r = once(plan)
        if not mode.startswith('pair'):
            continue
        last = plan[-1][0]
        for n in range(last + 1, len(r.ops) + 1):
            if mode == 'pair-die':
                once(plan + [(n, fault.KILL_BEFORE, 0)])
                if r.ops[n - 1] == 'w':
                    for k in tears:
                        once(plan + [(n, fault.TEAR, k)])
            else:
                once(plan + [(n, fault.FAIL, errno.EIO)])
    return (base.ops, tuple(sorted(kinds)))


def families(tier):
    t = tier == 'thorough'
    tears = list(range(0, 1000, 25)) + [999] if t else [0, 1, 500, 999]
    one, two = ['die', 'fail', 'fail-on'], ['pair-die', 'pair-fail']
    pres = sorted(PRE) if t else ['none', 'out+bak', 'tmp']
    return [
        Family('command', Prod(['cli'], sorted(SOURCES), pres, ['plain', 'dir', 'browse', 'rw'] if t else
                               ['plain', 'dir'], one, [tears]), explore, 'single faults of a command line run', chunk=1),
        Family('import', Prod(['py'], sorted(PYSOURCES), pres, ['plain'], one, [tears]), explore,
               'single faults of a translation for import', chunk=1),
        Family('browse', Prod(['cli'], ['small', 'ast'], pres, ['browse', 'rw'], one, [tears]), explore,
               'single faults with other options', chunk=1),
        Family('command2', Prod(['cli'], sorted(SOURCES) if t else ['small', 'ast', 'named'], pres if t else ['out+bak'],
                                ['plain', 'dir', 'browse', 'rw'] if t else ['plain'], two, [tears]), explore,
               'pairs of faults of a command line run', chunk=1),
        Family('import2', Prod(['py'], sorted(PYSOURCES) if t else ['small'], pres if t else ['out+bak'], ['plain'], two, [tears]),
               explore, 'pairs of faults of a translation for import', chunk=1),
    ]
