"""C12: the command line writes exactly the promised files and status."""
import json
import os
import stat
import subprocess
import sys

from engine import Family, Map, Prod, REPO, Seq, Sum, Violation, Words, wipe
import harness as h

LEVEL = 'model_checking'
RULE = ('every command line built from a set of input names, file kinds, existing outputs and options, and every history of '
        'invocations and edits up to a length, executed in a scratch directory and compared, file by file, with a model of '
        'the output protocol; states = directory states of the model, transitions = files processed')
ASSUMPTIONS = ['inputs of one command line have different output paths that are no inputs themselves, unless said otherwise',
               'an output name assigned in the text is relative to the working directory']

# ---------------------------------------------------------------- the model
READ_ONLY = 'ro'


def out_name(fn, outdir):
    """Output path of an input (names as documented beside the rules)."""
    d, base = os.path.split(fn)
    d = outdir or d
    dot = base.rfind('.')
    if dot <= 0 or not base[:dot].strip('.'):
        o = base + '.yugen'
    else:
        stem, ext = base[:dot], base[dot + 1:]
        low = ext.lower()
        if low == 'yu':
            inner = stem.rfind('.')
            o = stem if inner > 0 and stem[:inner].strip('.') else stem + '.yugen'
        elif low.startswith('yu-') and len(ext) > 3:
            o = stem + '.' + ext[3:]
        else:
            o = stem + '.yugen.' + ext
    return os.path.join(d, o)


class File(object):
    """content None: anything"""

    def __init__(self, content, ro=False):
        self.content, self.ro = content, ro


class Model(object):
    def __init__(self):
        self.files = {}
        self.dirs = {'.'}
        self.optional = set()

    def put(self, path, content, ro=False):
        self.files[os.path.normpath(path)] = File(content, ro)

    def process(self, fn, kind, opt):
        """True: success"""
        fn = os.path.normpath(fn)
        src = self.files.get(fn)
        if src is None:
            return False
        # -- passages: each with its own output, up to the first one that fails
        return all(self.passage(fn, res, opt) for res in kind(src.content, opt))

    def passage(self, fn, res, opt):
        if res is None:
            return False
        text, assigned = res
        out = os.path.normpath(assigned or out_name(fn, opt.get('o')))
        if text is AST:
            ast = os.path.normpath(os.path.splitext(out_name(fn, opt.get('o')))[0] + '.ast')
            if (os.path.dirname(ast) or '.') in self.dirs:
                self.put(ast, None)
            return False
        if out in self.dirs or (os.path.dirname(out) or '.') not in self.dirs:
            return False
        if out in self.files:
            self.put(out + '.bak', self.files[out].content)
        self.put(out, text, not opt.get('no_ro'))
        if opt.get('browse'):
            self.put(out + '.json', None)
        return True

    def key(self):
        return tuple(sorted((p, f.content, f.ro) for p, f in self.files.items()))


AST = object()


def K(text, result, assigned=None):
    data = text if isinstance(text, bytes) else text.encode('utf8')
    return data, result, assigned


KINDS = {
    'ok': K('A ($ 1)\n  t\u00e9xt \u00ff\n', 'A 1\n  t\u00e9xt \u00ff\n'),
    'empty': K('', '\n'),
    'ok2': K('($set x (`B))\n($x)($x)\n', 'BB\n'),
    'syntax': K('A ($ 1\n', None),
    'eval': K('A ($add 1)\n', None),
    'ast': K('A ($ \\p.(1 ($p)))\n', AST),
    'badutf': K(b'A \xff\xfe\n', None),
    'noimport': K('($import "none.yu")\n', None),
    'import': K('($import "mod.yu")($m)\n', 'M\n'),
    'named': K('($set __OUTPUT_FILE__ "named.txt")N\n', 'N\n', 'named.txt'),
    'namedsub': K('($set __OUTPUT_FILE__ "sub/named.h")S\n', 'S\n', 'sub/named.h'),
    'nameddir': K('($set __OUTPUT_FILE__ "nodir/x")S\n', 'S\n', 'nodir/x'),
    'namedfail': K('($set __OUTPUT_FILE__ "named.txt")N ($add 1)\n', None),
    'namedlate': K('N\n($set __OUTPUT_FILE__ (`late.c))($__OUTPUT_FILE__)', 'N\n"late.c"\n', 'late.c'),
    'passages': K('($set __OUTPUT_FILE__ ($__PASSAGE__ ("p1.txt" "sub/p2.txt" "p3.txt")))P ($__PASSAGE__ (1 2 3))\n',
                  ['P 1\n', 'P 2\n', 'P 3\n'], ['p1.txt', 'sub/p2.txt', 'p3.txt']),
    'passame': K('($set p ($__PASSAGE__ (1 2 3)))P ($p)\n', ['P 1\n', 'P 2\n', 'P 3\n'], [None] * 3),
    'passfail': K('($set p ($__PASSAGE__ (1 2 3)))P ($p) ($add 1)\n', [None, None, None], [None] * 3),
    'passfail2': K('($set p ($__PASSAGE__ (1 0 2)))P ($div 1 p)\n', ['P 1.0\n', None, 'P 0.5\n'], [None] * 3),
    'passast': K('($set p ($__PASSAGE__ (1 2)))P ($ \\p.(1 ($p)))\n', [AST, None], [None] * 2),
}
MISSING = ('missing', 'dir')


def outcome(kind):
    data, text, assigned = KINDS[kind]

    def run(content, opt):
        many = text if isinstance(text, list) else [text]
        names = assigned if isinstance(text, list) else [assigned]
        return [None if x is None else (AST, None) if x is AST else (x.encode('utf8'), n) for x, n in zip(many, names)]
    return run


# ---------------------------------------------------------------- running
OPTS = {
    'plain': ([], {}),
    'quiet': (['-q'], {}),
    'rw': (['--no-read-only'], {'no_ro': 1}),
    'type': (['-q', '--type-file'], {}),
    'o': (['-q', '-o', 'out'], {'o': 'out'}),
    'osub': (['--output', os.path.join('out', 'deep'), '-q'], {'o': 'out/deep'}),
    'omiss': (['-q', '-o', 'nodir'], {'o': 'nodir'}),
    'browse': (['-q', '--pp-browse'], {'browse': 1}),
    'orw': (['-q', '--no-read-only', '-o', 'out'], {'o': 'out', 'no_ro': 1}),
    'trace': (['-q', '-t', '0', '-l', '5', '-b', '2'], {}),
}


def snapshot(root):
    files, dirs = {}, {'.'}
    for d, ds, fs in os.walk(root):
        for x in ds:
            dirs.add(os.path.relpath(os.path.join(d, x), root))
        for x in fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            with open(p, 'rb') as f:
                files[os.path.relpath(p, root)] = (f.read(), not st.st_mode & 0o222)
    return files, dirs


def setup(root, m, names, kinds):
    """The inputs, the other files and the directories."""
    for d in ('sub', 'out', 'out/deep', 'adir.yu'):
        os.mkdir(os.path.join(root, d))
        m.dirs.add(d)
    for name, kind in zip(names, kinds):
        if kind not in MISSING:
            m.put(name, KINDS[kind][0])
    m.put('mod.yu', b'($set m (`M))')
    m.put('other.txt', b'other')
    m.put('sub/other.bak', b'other bak', True)


def write(root, m):
    for p, f in m.files.items():
        q = os.path.join(root, p)
        if os.path.exists(q):
            os.chmod(q, 0o644)
        with open(q, 'wb') as x:
            x.write(f.content)
        os.chmod(q, 0o444 if f.ro else 0o644)


def browse_text(want, got):
    """With browse recording white space at line ends and the end of file is left alone."""
    def norm(b):
        ls = [x.rstrip() for x in b.decode('utf8').split('\n')]
        while ls and not ls[-1]:
            ls.pop()
        while ls and not ls[0]:
            ls.pop(0)
        return ls
    return norm(want) == norm(got)


def compare(root, m, what, browse):
    files, dirs = snapshot(root)
    if dirs != m.dirs:
        raise Violation('%s\ndirectories %s, expected %s' % (what, sorted(dirs), sorted(m.dirs)))
    for p in sorted(set(files) | set(m.files)):
        f = m.files.get(p)
        if f is None:
            raise Violation('%s\nunexpected file %s: %r' % (what, p, files[p][0][:200]))
        if p not in files:
            raise Violation('%s\nfile %s is missing' % (what, p))
        got, ro = files[p]
        if f.content is None:
            if p.endswith('.json'):
                try:
                    ok = isinstance(json.loads(got.decode('utf8')), dict)
                except ValueError:
                    ok = False
                if not ok:
                    raise Violation('%s\n%s is no JSON object: %r' % (what, p, got[:200]))
            elif not got:
                raise Violation('%s\n%s is empty' % (what, p))
            continue
        if got != f.content and not (browse and browse_text(f.content, got)):
            raise Violation('%s\nfile %s holds %r, expected %r' % (what, p, got[:300], f.content[:300]))
        if not p.endswith('.bak') and ro != bool(f.ro):
            raise Violation('%s\nfile %s is %s' % (what, p, 'read-only' if ro else 'writable'))


def expected_status(n):
    return 4 * n


def invoke(root, m, names, kinds, optname, what, ctx):
    args, opt = OPTS[optname]
    failed = 0
    for name, kind in zip(names, kinds):
        ctx.count('transitions')
        if kind in MISSING or not m.process(name, outcome(kind), opt):
            failed += 1
        ctx.state(m.key())
    rc, stdout, logs = h.cli(args + list(names))
    if rc != 4 * failed:
        raise Violation('%s\nexit value %r with %d failed files, expected %d' % (what, rc, failed, 4 * failed))
    errs = [t for lv, t in logs if lv >= 40]
    if optname == 'trace':
        errs = [t for lv, t in logs if lv >= 40]
    elif len(errs) < failed or bool(errs) != bool(failed):
        raise Violation('%s\n%d error reports for %d failed files: %r' % (what, len(errs), failed, errs))
    compare(root, m, what, opt.get('browse'))
    if opt.get('browse'):
        # -- the exact text is judged elsewhere
        files, _ = snapshot(root)
        for p, f in m.files.items():
            if f.content is not None:
                f.content = files[p][0]
    return rc


def in_dir(fn):
    def run(case, ctx):
        root = ctx.dir()
        old = os.getcwd()
        os.chdir(root)
        try:
            return fn(case, ctx, root)
        finally:
            os.chdir(old)
    return run


# ---------------------------------------------------------------- families
NAMES = ['a.yu-c', 'a.c', 'a', 'a.yu', 'a.h.yu', 'A.YU', 'a.C.Yu-Hpp', '.hid', '.yu', '.a.yu', 'a.yu-', 'a.yux', 'a.b.yu-c',
         'a.yu-c.yu', 'a.yu.yu', 'a b.yu-c', 'a.yu-py2', 'a.yu-tar-gz', 'a.', 'a..yu', 'a.xyu', 'a.c.yu-', 'sub/a.yu-c',
         './a.yu-c', 'sub/../a.yu-c', 'sub/x.yu', 'sub/x', 'a.yu-yu', 'a.yu-bak', 'a-yu-c', '\u00e9.yu-c', 'a.yugen', 'yu-c',
         'a.c.yu.txt', 'sub/.yu-c', 'a.b.c.yu', 'a.yu.c']
PRE = ['none', 'out', 'out-ro', 'out+bak', 'out-ro+bak-ro', 'bak', 'tmp', 'outdir', 'json']


def prepare(m, root, out, pre):
    out = os.path.normpath(out)
    if (os.path.dirname(out) or '.') not in m.dirs:
        return
    if pre.startswith('out') and pre != 'outdir':
        m.put(out, b'old output\n', 'out-ro' in pre)
    if 'bak' in pre:
        m.put(out + '.bak', b'old backup\n', 'bak-ro' in pre)
    if pre == 'json':
        m.put(out + '.json.old', b'{}')
    if pre == 'outdir':
        os.mkdir(os.path.join(root, out))
        m.dirs.add(out)
    if pre == 'tmp':
        m.put(out + '.tm', b'not mine')


@in_dir
def single(case, ctx, root):
    name, kind, optname, pre, absolute = case
    m = Model()
    setup(root, m, [name], [kind])
    names = KINDS[kind][2]
    for n in sorted({n or out_name(name, OPTS[optname][1].get('o')) for n in (names if isinstance(names, list) else [names])}):
        prepare(m, root, n, pre)
    write(root, m)
    arg = os.path.join(root, name) if absolute else name
    what = 'yupp %s %s (%s, existing output: %s)' % (' '.join(OPTS[optname][0]), arg, kind, pre)
    if absolute:
        rel = m

        class Abs(object):
            dirs, files = m.dirs, m.files

            def process(self, fn, k, opt):
                return rel.process(os.path.relpath(fn, root), k, opt)

            def key(self):
                return rel.key()
        rc = invoke(root, Abs(), [arg], [kind], optname, what, ctx)
    else:
        rc = invoke(root, m, [arg], [kind], optname, what, ctx)
    return (rc, optname, pre, tuple(sorted(m.files)))


@in_dir
def sequence(case, ctx, root):
    kinds, optname, pre = case
    names = []
    for i, k in enumerate(kinds):
        names.append('adir.yu' if k == 'dir' else '%s%d.yu-c' % (k, i))
    m = Model()
    setup(root, m, names, kinds)
    if pre:
        for n, k in zip(names, kinds):
            if k not in MISSING:
                x = KINDS[k][2]
                prepare(m, root, isinstance(x, str) and x or out_name(n, OPTS[optname][1].get('o')), 'out-ro')
    write(root, m)
    what = 'yupp %s with files %s%s' % (' '.join(OPTS[optname][0]), ' '.join(kinds), ', outputs exist' if pre else '')
    rc = invoke(root, m, names, kinds, optname, what, ctx)
    return rc, tuple(sorted(m.files))


@in_dir
def history(case, ctx, root):
    """Invocations on two inputs with edits in between."""
    m = Model()
    names = ['p.yu-c', 'sub/q.h.yu']
    kinds = ['ok', 'ok2']
    setup(root, m, names, kinds)
    write(root, m)
    done = []
    for step in case:
        what = 'steps %s' % ' '.join(done + [step])
        op, _, arg = step.partition(':')
        if op == 'edit':
            i, k = int(arg[0]), arg[1:]
            kinds[i] = k
            m.put(names[i], KINDS[k][0])
            with open(names[i], 'wb') as f:
                f.write(KINDS[k][0])
        elif op == 'rm':
            p = out_name(names[0], None)
            if p in m.files:
                del m.files[p]
                os.chmod(p, 0o644)
                os.unlink(p)
        else:
            idx = {'0': [0], '1': [1], 'both': [0, 1], 'swap': [1, 0], 'twice': [0, 0]}[op]
            invoke(root, m, [names[i] for i in idx], [kinds[i] for i in idx], arg, what, ctx)
        done.append(step)
    return m.key()


STEPS = ['0:quiet', '1:quiet', 'both:rw', 'swap:quiet', 'twice:quiet', '0:o', '0:rw', 'edit:0syntax', 'edit:0ok2', 'edit:0ast',
         'edit:0named', 'edit:0passages', 'edit:1named', 'edit:1ok', 'edit:1eval', 'rm', '0:browse']


def status(case, ctx):
    """The exit status of a real process."""
    root = ctx.dir()
    n, good, cmd = case
    pk = os.path.join(root, 'pk')
    os.mkdir(pk)
    os.symlink(REPO, os.path.join(pk, 'yupp'))
    work = os.path.join(root, 'work')
    os.mkdir(work)
    for i in range(good):
        with open(os.path.join(work, 'g%d.yu-c' % i), 'w') as f:
            f.write('G\n')
    files = ['g%d.yu-c' % i for i in range(good)]
    files[good // 2:good // 2] = ['m%d.yu-c' % i for i in range(n)]
    if cmd == 'respfile':
        with open(os.path.join(work, 'resp'), 'w') as f:
            f.write('-q\n' + '\n'.join(files))
        args = ['@resp']
    else:
        args = ['-q'] + files
    env = dict(os.environ, PYTHONPATH=pk, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-m', 'yupp'] + args, cwd=work, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    st = p.returncode
    what = '%d failing and %d good files' % (n, good)
    if (st == 0) != (n == 0):
        raise Violation('%s: exit status %d\n%s' % (what, st, p.stdout.decode('utf8', 'replace')[-500:]))
    if 4 * n <= 255 and st != 4 * n:
        raise Violation('%s: exit status %d, expected %d' % (what, st, 4 * n))
    made = sorted(x for x in os.listdir(work) if x.endswith('.c'))
    if made != sorted('g%d.c' % i for i in range(good)):
        raise Violation('%s: outputs %s' % (what, made))
    ctx.count('transitions', n + good)
    return st


def families(tier):
    t = tier == 'thorough'
    opts = sorted(OPTS)
    allkinds = sorted(KINDS)
    seqkinds = ['ok', 'empty', 'syntax', 'ast', 'badutf', 'named', 'namedfail', 'missing', 'dir', 'import', 'passages', 'passfail2']
    return [
        Family('names', Prod(NAMES, ['ok', 'syntax', 'ast'], opts, ['none', 'out-ro+bak-ro', 'outdir'], [False, True] if t
                             else [False]), single, 'every input name x outcome x options x existing output'),
        Family('kinds', Prod(['a.yu-c', 'sub/a.h.yu'], allkinds, opts, PRE, [False, True]), single,
               'every kind of file x options x what exists at the output path'),
        Family('sequences', Prod(Map(list, Words(seqkinds, 4 if t else 3, 1)),
                                 ['quiet', 'o', 'plain', 'browse'] if t else ['quiet', 'o'], [False, True]),
               sequence, 'every sequence of up to three files of one command line'),
        Family('histories', Map(list, Words(STEPS, 4 if t else 3, 1)), history,
               'every history of invocations and edits up to a length'),
        Family('status', Prod([0, 1, 2, 31, 32, 62, 63, 64, 65, 127, 128, 192, 256], [0, 1, 2], ['args', 'respfile']),
               status, 'exit status of the real process'),
    ]
