"""Exhaustive exploration engine.

A *family* is a finite, index-addressable space of cases (programs, inputs, histories, crash points) and a check that
runs one case on the real code and compares it with an oracle.  The engine runs every index of every family exactly
once, spread over forked workers by a shared counter, watches for evaluations that do not return, collects coverage
counts, and reports the simplest violations.  Nothing is sampled and nothing depends on a seed.
"""
import json
import mmap
import os
import pickle
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('YUPP_REPO', '/repo')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
JOBS = int(os.environ.get('YV_JOBS', '0')) or max(1, min(8, os.cpu_count() or 1))
LIMIT_CASE = 25.0        # seconds before a case is suspected not to return
LIMIT_CONFIRM = 60       # seconds it gets alone in a fresh process
DEADLINE = float(os.environ.get('YV_DEADLINE', '0')) or (600.0 if TIER == 'quick' else 3 * 3600.0)
MAX_VIOL = 12
SET_CAP = 300000


class Violation(Exception):
    """The property does not hold for a case. `key` identifies a known finding, if there is one."""

    def __init__(self, message, key=None):
        Exception.__init__(self, message)
        self.message = message
        self.key = key


# --------------------------------------------------------------------------- spaces
class Seq(object):
    """A list used as a space."""

    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


class Prod(object):
    """Product of spaces/lists, the first factor varying slowest."""

    def __init__(self, *factors):
        self.f = [x if hasattr(x, '__getitem__') else list(x) for x in factors]
        self.n = 1
        for x in self.f:
            self.n *= len(x)

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        out = []
        for x in reversed(self.f):
            i, r = divmod(i, len(x))
            out.append(x[r])
        out.reverse()
        return out


class Words(object):
    """Every sequence over an alphabet with lo <= length <= hi, shortest first."""

    def __init__(self, alphabet, hi, lo=0):
        self.a = list(alphabet)
        self.lo, self.hi = lo, hi
        self.n = sum(len(self.a) ** k for k in range(lo, hi + 1))

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if i >= self.n:
            raise IndexError(i)
        k = self.lo
        while i >= len(self.a) ** k:
            i -= len(self.a) ** k
            k += 1
        out = []
        for _ in range(k):
            i, r = divmod(i, len(self.a))
            out.append(self.a[r])
        out.reverse()
        return out


class Sum(object):
    """Concatenation of spaces."""

    def __init__(self, *parts):
        self.p = parts

    def __len__(self):
        return sum(len(x) for x in self.p)

    def __getitem__(self, i):
        for x in self.p:
            if i < len(x):
                return x[i]
            i -= len(x)
        raise IndexError(i)


class Map(object):
    def __init__(self, fn, space):
        self.fn, self.s = fn, space

    def __len__(self):
        return len(self.s)

    def __getitem__(self, i):
        return self.fn(self.s[i])


class Family(object):
    """name, space of JSON-able cases, check(case, ctx) -> outcome key; raises Violation.

    chunk: indices handed out at a time; setup(ctx): run once per worker before the first case."""

    def __init__(self, name, space, check, what='', chunk=None, setup=None):
        self.name, self.space, self.check, self.what = name, space, check, what
        n = len(space)
        self.chunk = chunk or max(1, min(500, n // (JOBS * 12) or 1))
        self.setup = setup


class Ctx(object):
    """Per-worker context: scratch directory, coverage counters."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.counters = {}
        self.states = set()
        self.outcomes = set()
        self.trivial = 0
        self.work = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def state(self, key):
        if len(self.states) < SET_CAP:
            self.states.add(hash(key))

    def dir(self):
        """An empty directory for one case."""
        if self.work is None:
            self.work = os.path.join(self.scratch, 'case')
        wipe(self.work)
        os.mkdir(self.work)
        return self.work


def wipe(path):
    """Remove a directory tree below a scratch directory made by this run."""
    if not os.path.lexists(path):
        return
    assert '/yv-' in path, path

    def again(fn, p, _):
        os.chmod(os.path.dirname(p), 0o700)
        os.chmod(p, 0o700)
        fn(p)

    shutil.rmtree(path, onerror=again)


def make_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='yv-', dir=base)


# --------------------------------------------------------------------------- workers
SLOT = struct.Struct('dqq')      # time the current case started (0: none), family, index


class Shared(object):
    def __init__(self, jobs):
        self.m = mmap.mmap(-1, 4096 + SLOT.size * jobs)

    def stop(self):
        return self.m[0] != 0

    def set_stop(self):
        self.m[0] = 1

    def begin(self, w, fam, idx):
        SLOT.pack_into(self.m, 4096 + w * SLOT.size, time.time(), fam, idx)

    def idle(self, w):
        SLOT.pack_into(self.m, 4096 + w * SLOT.size, 0.0, 0, 0)

    def slot(self, w):
        return SLOT.unpack_from(self.m, 4096 + w * SLOT.size)


def _limit():
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Sink(object):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def reconfigure(self, **kw):
        pass


def run_case(fam, case, ctx):
    """(outcome, violation message, known key)"""
    try:
        return fam.check(case, ctx), None, None
    except Violation as v:
        return None, v.message, v.key
    except (KeyboardInterrupt, GeneratorExit):
        raise
    except BaseException:
        return None, 'unexpected exception:\n' + traceback.format_exc(), None


def _worker(w, fams, todo_r, shared, out, scratch):
    """Takes (family, start, stop) records from a pipe until it is empty."""
    os.mkdir(scratch)
    os.chdir(scratch)
    sys.stdout = Sink()
    ctx = Ctx(scratch)
    res = {'evals': {}, 'viol': [], 'samples': {}, 'error': None}
    ready = set()
    try:
        while not shared.stop():
            rec = os.read(todo_r, 24)
            if len(rec) < 24:
                break
            fi, lo, hi = struct.unpack('qqq', rec)
            fam = fams[fi]
            if fi not in ready:
                ready.add(fi)
                shared.begin(w, fi, -1)
                if fam.setup:
                    fam.setup(ctx)
            for i in range(lo, hi):
                case = fam.space[i]
                shared.begin(w, fi, i)
                outcome, msg, key = run_case(fam, case, ctx)
                if msg is not None:
                    res['viol'].append((fi, i, case, msg, key))
                    # -- known findings do not count against the limit: the parent sorts them out
                    if len(res['viol']) >= 400:
                        shared.set_stop()
                        break
                elif outcome is not None:
                    if len(ctx.outcomes) < SET_CAP:
                        ctx.outcomes.add(hash((fi, outcome)))
                else:
                    ctx.trivial += 1
                res['evals'][fi] = res['evals'].get(fi, 0) + 1
                if fi not in res['samples'] and i >= len(fam.space) // 2:
                    res['samples'][fi] = (i, case, outcome)
            shared.idle(w)
    except BaseException:
        res['error'] = traceback.format_exc()
        shared.set_stop()
    shared.idle(w)
    os.chdir('/')
    res.update(counters=ctx.counters, states=ctx.states, outcomes=ctx.outcomes, trivial=ctx.trivial)
    with open(out, 'wb') as f:
        pickle.dump(res, f, 2)


def _feeder(todo_w, fams, order, shared):
    """Writes the work records; the records of a pipe are read whole (24 bytes < PIPE_BUF)."""
    for fi in order:
        n, c = len(fams[fi].space), fams[fi].chunk
        for lo in range(0, n, c):
            if shared.stop():
                return
            os.write(todo_w, struct.pack('qqq', fi, lo, min(lo + c, n)))


def explore(pid, fams, report=True):
    """Run all families; returns the merged result."""
    t0 = time.time()
    scratch = make_scratch()
    shared = Shared(JOBS)
    todo_r, todo_w = os.pipe()
    kids = {}
    merged = {'evals': {}, 'viol': [], 'samples': {}, 'counters': {}, 'states': set(), 'outcomes': set(),
              'trivial': 0, 'errors': [], 'capped': False}
    try:
        fpid = os.fork()
        if not fpid:
            try:
                os.close(todo_r)
                _feeder(todo_w, fams, range(len(fams)), shared)
            except BrokenPipeError:
                pass
            finally:
                os._exit(0)
        os.close(todo_w)

        def start(w, gen):
            out = os.path.join(scratch, 'res-%d-%d' % (w, gen))
            p = os.fork()
            if not p:
                code = 1
                try:
                    _limit()
                    _worker(w, fams, todo_r, shared, out, os.path.join(scratch, 'w%d-%d' % (w, gen)))
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            kids[p] = (w, gen, out)

        for w in range(JOBS):
            start(w, 0)
        suspects = []
        while kids:
            p, status = os.waitpid(-1, os.WNOHANG)
            if p == 0:
                time.sleep(0.05)
                now = time.time()
                if now - t0 > DEADLINE and not shared.stop():
                    merged['capped'] = True
                    shared.set_stop()
                for q, (w, gen, out) in list(kids.items()):
                    st, fi, idx = shared.slot(w)
                    if st and now - st > LIMIT_CASE * (6 if idx < 0 else 1):
                        os.kill(q, signal.SIGKILL)
                continue
            if p == fpid or p not in kids:
                continue
            w, gen, out = kids.pop(p)
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    r = pickle.load(f)
                os.unlink(out)
                for k, v in r['evals'].items():
                    merged['evals'][k] = merged['evals'].get(k, 0) + v
                for k, v in r['counters'].items():
                    merged['counters'][k] = merged['counters'].get(k, 0) + v
                for k, v in r['samples'].items():
                    if k not in merged['samples'] or v[0] < merged['samples'][k][0]:
                        merged['samples'][k] = v
                merged['viol'] += r['viol']
                merged['states'] |= r['states']
                merged['outcomes'] |= r['outcomes']
                merged['trivial'] += r['trivial']
                if r['error']:
                    merged['errors'].append(r['error'])
            else:
                # -- killed by the watchdog, by a crash of the interpreter, or by lack of memory
                st, fi, idx = shared.slot(w)
                merged['capped'] = True
                if st:
                    suspects.append((fi, idx))
                shared.idle(w)
                if len(suspects) < 4:
                    start(w, gen + 1)
                else:
                    shared.set_stop()
        confirmed = 0
        for fi, idx in suspects:
            fam = fams[fi]
            if confirmed >= 2:
                break
            if idx < 0:
                merged['errors'].append('setup of %s did not return' % fam.name)
                continue
            if os.environ.get('YV_SHOW'):
                print('suspect', fam.name, idx, fam.space[idx])
            how = confirm(pid, fam.name, fam.space[idx])
            if how:
                confirmed += 1
                merged['viol'].append((fi, idx, fam.space[idx], how, None))
    finally:
        try:
            os.kill(fpid, signal.SIGKILL)
        except OSError:
            pass
        for p in kids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        os.chdir('/')
        wipe(scratch)
    merged['wall'] = time.time() - t0
    return merged


def confirm(pid, family, case):
    """Run one case alone in a fresh process; None if it is all right there."""
    cmd = [sys.executable, os.path.join(HERE, 'main.py'), pid, '--case', json.dumps([family, case])]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=LIMIT_CONFIRM,
                           preexec_fn=_limit)
    except subprocess.TimeoutExpired:
        return 'does not terminate (%d s alone in a fresh process)' % LIMIT_CONFIRM
    if p.returncode == 0:
        return None
    out = p.stdout.decode('utf8', 'replace')
    if p.returncode == 1:
        return out.strip()[-2000:]
    return 'the process died (status %d)\n%s' % (p.returncode, out.strip()[-1500:])


def single(fams, family, case):
    """Run one case in this process (replay); returns (outcome, message, key)."""
    scratch = make_scratch()
    try:
        for fam in fams:
            if fam.name == family:
                ctx = Ctx(os.path.join(scratch, 'w'))
                os.mkdir(ctx.scratch)
                os.chdir(ctx.scratch)
                if fam.setup:
                    fam.setup(ctx)
                return run_case(fam, case, ctx)
        raise SystemExit('no family %r' % family)
    finally:
        os.chdir('/')
        wipe(scratch)


# --------------------------------------------------------------------------- reporting
def known_findings(pid):
    """key -> description of the findings recorded for a property."""
    res = {}
    fn = os.path.join(VERIF, 'known_findings')
    if os.path.exists(fn):
        with open(fn, encoding='utf8') as f:
            for ln in f:
                if ln.startswith('finding: property=%s ' % pid):
                    rest = ln.split(' ', 2)[2].strip()
                    key, _, desc = rest.partition(' ')
                    assert key.startswith('key='), ln
                    res[key[4:]] = desc
    return res


def brief(x, n=600):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=True, default=str)
    return s if len(s) <= n else s[:n] + '...'


def main(mod, pid):
    fams = mod.families(TIER)
    r = explore(pid, fams)
    known = known_findings(pid)
    bad = []
    seen_known = set()
    for fi, i, case, msg, key in sorted(r['viol'], key=lambda v: (v[0], v[1])):
        if key is not None and key in known:
            seen_known.add(key)
        else:
            bad.append((fi, i, case, msg, key))
    sizes = {f.name: len(f.space) for f in fams}
    done = {fams[k].name: v for k, v in sorted(r['evals'].items())}
    total = sum(done.values())
    complete = all(done.get(n, 0) == s for n, s in sizes.items()) and not r['capped']
    cov = {
        'evaluations': total,
        'distinct_nontrivial': len(r['outcomes']),
        'rule': getattr(mod, 'RULE', 'every case of every family in index order; distinct = different observed outcomes'),
        'samples': [{'family': fams[k].name, 'case': json.loads(brief_json(v[1])), 'observed': brief(v[2], 300)}
                    for k, v in sorted(r['samples'].items())],
        'exhaustive': bool(complete),
        'families': [{'name': f.name, 'size': sizes[f.name], 'run': done.get(f.name, 0), 'what': f.what}
                     for f in fams],
        'capped': r['capped'],
    }
    cov.update(r['counters'])
    if mod.LEVEL == 'model_checking':
        cov['states'] = len(r['states'])
        cov.setdefault('transitions', total)
        cov.setdefault('traces_validated_against_impl', total)
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(r['wall'], 1), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    print('%s %s: %d cases in %d families, %d distinct outcomes, %d states, %.1f s%s' % (
        pid, TIER, total, len(fams), len(r['outcomes']), len(r['states']), r['wall'],
        '' if complete else ' (NOT complete)'))
    for k, d in known.items():
        print('KNOWN-FINDING: property=%s %s%s' % (pid, d, '' if k in seen_known else ' [not seen in this run]'))
    if bad:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        # -- the simplest ones, of different kinds
        pick, kinds = [], set()
        for v in bad:
            kind = (v[0], v[3].split('\n')[0][:25])
            if kind not in kinds:
                kinds.add(kind)
                pick.append(v)
        for n, (fi, i, case, msg, key) in enumerate(pick[:int(os.environ.get('YV_SHOW', '5'))]):
            fn = os.path.join(VERIF, 'replays', '%s-%d.json' % (pid, n))
            with open(fn, 'w') as f:
                json.dump({'property': pid, 'family': fams[fi].name, 'index': i, 'case': case, 'message': msg}, f,
                          indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, fn))
            print('  family %s case %s\n  %s' % (fams[fi].name, brief(case), brief(msg, 900).replace('\n', '\n  ')))
        print('%d violating cases' % len(bad))
        return 1
    if r['errors']:
        print('ERROR\n' + '\n'.join(r['errors'][:2]))
        return 3
    if total == 0:
        print('ERROR nothing was explored')
        return 3
    return 0


def brief_json(case):
    s = json.dumps(case, ensure_ascii=True, default=str)
    return s if len(s) < 2000 else json.dumps(s[:1500] + '...')
