"""C21: each option has the value given last, and lists add up."""
import os
import stat

from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('every pair of arguments and every longer sequence of conflicting ones on the command line, every pair of statements over the '
        'project and the file settings, and every sequence of files with settings in one process; the effective options are read '
        'off translations of probe sources and compared with a model of the order; distinct = different effective options')
ASSUMPTIONS = ['the command takes its options from the arguments, an import from the settings files; neither reads the other',
               'levels of the log below errors differ in nothing the tool reports and count as one']

MAIN = '''<($K)|($L)>
/*($add 1 1)*/
# ($add 2 2)
.
  ($ [ x
   y])


z
($unbq)'''
DEFAULT = {'skip': 0, 'trim': True, 'reduce': True, 'browse': False, 'warn': True, 'log': 1, 'stage': 0, 'tb': 1, 'dirs': (), 'def': (), 'ro': True,
           'type': False, 'quiet': False, 'out': ''}


def put(n, t):
    d = os.path.dirname(n)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    with open(n, 'wb') as f:
        f.write(t.encode('utf8'))


def want_main(c, py):
    """The text the main probe gives under a configuration, and the warnings about its atoms."""
    d = {}
    for x in c['def']:
        k, _, v = x.partition(':')
        d[k] = v or 'True'
    skip = c['skip'] if c['skip'] != 3 else 2 if py else 1
    lines = ['<%s|%s>' % (d.get('K', 'K'), d.get('L', 'L')), '/*($add 1 1)*/' if skip == 1 else '/*2*/', '# ($add 2 2)' if skip == 2 else '# 4', '.']
    lines += ['  x', '    y'] if c['trim'] else ['   x', '   y']
    lines += ['', '', 'z', 'unbq'] if not c['reduce'] else ['', 'z', 'unbq']
    return '\n'.join(lines), {k for k in ('K', 'L') if k not in d} | {'unbq'}


def norm(t):
    return '\n'.join(x.rstrip() for x in t.rstrip().split('\n'))


NAMES = ['p.yu-c', 'q.yu-py', 'e1.yu-c', 'e2.yu-c', 'i1.yu-c', 'i2.yu-c', 'i3.yu-c']
OUT = ['p.c', 'q.py', 'e1.c', 'e2.c', 'i1.c', 'i2.c', 'i3.c']


def setup_tree(prefix=''):
    put(prefix + 'p.yu-c', MAIN)
    put(prefix + 'q.yu-py', MAIN)
    put(prefix + 'e1.yu-c', '($add 1 "s")')
    put(prefix + 'e2.yu-c', '($set')
    put(prefix + 'i1.yu-c', '($import "dm.yu")')
    put(prefix + 'i2.yu-c', '($import "ea.yu")')
    put(prefix + 'i3.yu-c', '($import "eb.yu")')
    put('da/dm.yu', 'A')
    put('db/dm.yu', 'B')
    put('da/ea.yu', 'x')
    put('db/eb.yu', 'y')


def tool(logs):
    return [(lv, m) for lv, m in logs]


def has_tb(m):
    return any('.py", line' in x for x in m.split('\n'))


def observe(name, run, c, base, problems):
    """Runs one probe under the expected configuration c and checks what shows."""
    i = NAMES.index(name)
    out = os.path.join(c['out'], OUT[i]) if c['out'] else base + OUT[i]
    for x in (out, out + '.json'):
        if os.path.exists(x):
            os.chmod(x, 0o600)
            os.remove(x)
    del h.TRACE.rec[:]
    ok, stdout, logs = run(base + name)
    traces = list(h.TRACE.rec)
    bad = problems.append
    warns = [m for lv, m in logs if lv == 30]
    errs = [m for lv, m in logs if lv == 40]
    if i < 2:
        t, unbound = want_main(c, i == 1)
        if not ok or not os.path.isfile(out):
            bad('%s fails %r %r' % (name, ok, logs))
            return
        with open(out, encoding='utf8') as f:
            got = f.read()
        if norm(got) != t:
            bad('text %r, expected %r' % (norm(got), t))
        if bool(os.stat(out).st_mode & 0o222) == c['ro']:
            bad('mode of the output %o' % os.stat(out).st_mode)
        if os.path.isfile(out + '.json') != c['browse']:
            bad('browse record %r' % os.path.isfile(out + '.json'))
        w = {m.split('"')[1] for m in warns if 'unbound' in m}
        if w != (unbound if c['warn'] and c['log'] <= 3 else set()):
            bad('warnings about %r' % w)
        if stdout is not None:
            # -- what is shown by the command
            if (norm(got).split('\n')[0] in stdout) != c['type'] and c['stage'] == 0:
                bad('the text is shown: %r' % stdout)
            if ('<--' in stdout) == c['quiet']:
                bad('quiet: %r' % stdout[:200])
    elif i < 4:
        if ok:
            bad('%s succeeds' % name)
        if bool(errs) != (c['log'] <= 4):
            bad('error reports %r' % errs)
        elif errs and has_tb(errs[0]) != (c['tb'] == 2) and not (c['tb'] == 1 and i == 2):
            bad('a traceback is shown: %r for %s' % (errs[0], name))
    else:
        d = [x for x in c['dirs'] if x in ('da', 'db')]
        res = (d[0][1].upper() if d else None) if i == 4 else ('x' if 'da' in d else None) if i == 5 else ('y' if 'db' in d else None)
        got = None
        if ok:
            with open(out) as f:
                got = f.read().strip()
        if got != res:
            bad('import of %s gives %r, expected %r' % (name, got, res))
    n = {'parse': any('<--' in m and 'ps_text' in m for lv, m in traces), 'eval': any(' --> ' in m for lv, m in traces)}
    if i < 2:
        if n['parse'] != bool(c['stage'] & 1) or n['eval'] != bool(c['stage'] & 2):
            bad('tracing %r' % n)


def effective(c):
    d = {}
    for x in c['def']:
        k, _, v = x.partition(':')
        d[k] = v or 'True'
    return tuple(sorted((k, v) for k, v in c.items() if k not in ('def', 'dirs'))) + (tuple(sorted(d.items())), tuple(c['dirs']))


# --------------------------------------------------------------------------- the command
ARGS = [(['--pp-skip-comments', '0'], 'skip', 0), (['--pp-skip-comments', '1'], 'skip', 1), (['--pp-skip-comments=2'], 'skip', 2), (['--pp-skip-comments', '3'], 'skip', 3),
        (['--pp-trim-app-indent'], 'trim', True), (['--pp-no-trim-app-indent'], 'trim', False), (['--pp-reduce-emptiness'], 'reduce', True), (['--pp-no-reduce-emptiness'], 'reduce', False),
        (['--pp-browse'], 'browse', True), (['--pp-no-browse'], 'browse', False), (['-Wunbound'], 'warn', True), (['-Wno-unbound'], 'warn', False), (['--warn-no-unbound-application'], 'warn', False),
        (['--warn-unbound-application'], 'warn', True),
        (['-l', '3'], 'log', 3), (['-l', '4'], 'log', 4), (['--log', '5'], 'log', 5), (['-l1'], 'log', 1), (['-t', '1'], 'stage', 1), (['--trace', '2'], 'stage', 2), (['-t3'], 'stage', 3), (['-t', '0'], 'stage', 0),
        (['-b', '0'], 'tb', 0), (['--traceback', '2'], 'tb', 2), (['-b1'], 'tb', 1), (['-d', 'da'], 'dirs', 'da'), (['-d', 'db'], 'dirs', 'db'), (['-ddx'], 'dirs', 'dx'), (['-D', 'K:1'], 'def', 'K:1'),
        (['-D', 'K:2'], 'def', 'K:2'), (['--pp-define', 'L'], 'def', 'L'), (['-DK'], 'def', 'K'), (['--no-read-only'], 'ro', False), (['--type-file'], 'type', True), (['-q'], 'quiet', True), (['--quiet'], 'quiet', True),
        (['-o', 'od'], 'out', 'od'), (['--output', 'oe'], 'out', 'oe'), (['-o', ''], 'out', '')]
LISTS = ('dirs', 'def')
GROUPS = {}
for _i, _a in enumerate(ARGS):
    GROUPS.setdefault(_a[1], []).append(_i)


def apply(c, key, v):
    c = dict(c)
    c[key] = c[key] + (v,) if key in LISTS else v
    return c


def check_command(case, ctx):
    idx, style = case
    os.chdir(ctx.dir())
    setup_tree()
    os.mkdir('od')
    os.mkdir('oe')
    # -- settings files are not for the command
    put('.yuconfig', 'pp_reduce_emptiness = False\npp_define.append( "K:9" )\n')
    put('p.yuconfig', 'pp_trim_app_indent = False\n')
    c = dict(DEFAULT)
    args = []
    for i in idx:
        a, key, v = ARGS[i]
        args += a
        c = apply(c, key, v)
    ctx.state(effective(c))
    keys = {ARGS[i][1] for i in idx}
    problems = []

    def run(fn):
        if style == 'response':
            put('args.txt', ' \n'.join(args + [fn]))
            full = ['@args.txt']
        elif style == 'files-first':
            full = [fn] + args
        elif style == 'middle':
            full = args[:len(ARGS[idx[0]][0])] + [fn] + args[len(ARGS[idx[0]][0]):] if idx else [fn]
        else:
            full = args + [fn]
        try:
            rc, stdout, logs = h.cli(full)
        finally:
            h.reset_shell()
            h.yugen.trace.set_current(0)
        return rc == 0, stdout, logs
    if style == 'response' and any('' in ARGS[i][0] for i in idx):
        return None
    for name in NAMES:
        if name[0] == 'q' and not keys & {'skip'} or name[0] == 'e' and not keys & {'tb', 'log'} or name[0] == 'i' and not keys & {'dirs'}:
            continue
        observe(name, run, c, '', problems)
    if problems:
        raise Violation('arguments %r (%s): %s\nexpected options %r' % (args, style, '; '.join(problems), c))
    return effective(c)


def check_several(case, ctx):
    """The same options hold for every input of the command, whatever the others are and do."""
    idx, order = case
    os.chdir(ctx.dir())
    setup_tree()
    os.mkdir('od')
    os.mkdir('oe')
    put('w.yu-c', '($set __OUTPUT_FILE__ "w.txt")($ 2 3)($set K 7)($set da 1)')
    put('v.yu-c', '($__PASSAGE__ (1 2 3))')
    c = dict(DEFAULT)
    args = []
    for i in idx:
        a, key, v = ARGS[i]
        args += a
        c = apply(c, key, v)
    problems = []
    for name in ('p.yu-c', 'e1.yu-c', 'i1.yu-c'):
        def run(fn):
            names = [x if x != '*' else fn for x in order]
            try:
                rc, stdout, logs = h.cli(args + names)
            finally:
                h.reset_shell()
                h.yugen.trace.set_current(0)
            i = NAMES.index(name)
            o = os.path.join(c['out'], OUT[i]) if c['out'] else OUT[i]
            return os.path.isfile(o), None, logs
        if name == 'e1.yu-c' and [x for x in order if x in ('e1.yu-c', 'e2.yu-c', 'none')]:
            continue
        observe(name, run, c, '', problems)
    if problems:
        raise Violation('arguments %r for %r: %s\nexpected options %r' % (args, order, '; '.join(problems), c))
    return effective(c)


BADARGS = [['--pp-skip-comments', '4'], ['--pp-skip-comments', 'x'], ['-l', '0'], ['-l', '6'], ['-t', '4'], ['-b', '3'], ['--none'], ['-d'], ['-D'], ['-o'], ['-l'], ['--log', ''], ['-b', '-1'],
           ['@none.txt']]


def check_bad(case, ctx):
    """Bad arguments: the documented status 2 and nothing is done."""
    pre, bad, post = case
    os.chdir(ctx.dir())
    setup_tree()
    args = list(pre) + list(bad) + list(post)
    if bad[0] == '@none.txt':
        args = list(bad)
    elif len(bad) == 1 and bad[0] in ('-d', '-D', '-o', '-l'):
        args = list(pre) + list(post) + list(bad)
    import sys
    err, sys.stderr = sys.stderr, h.Capture()
    try:
        rc, stdout, logs = h.cli(args)
    finally:
        sys.stderr = err
        h.reset_shell()
    if rc != ('exit', 2):
        raise Violation('arguments %r: status %r' % (args, rc))
    if os.path.exists('p.c'):
        raise Violation('arguments %r: translated nevertheless' % (args,))
    return rc


# --------------------------------------------------------------------------- settings
SETS = [('pp_skip_comments = PP_SKIP_C_COMMENTS', 'skip', 1), ('pp_skip_comments = 2', 'skip', 2), ('pp_skip_comments = PP_SKIP_COMMENTS_AUTO', 'skip', 3), ('pp_skip_comments = PP_SKIP_COMMENTS_NONE', 'skip', 0),
        ('pp_trim_app_indent = False', 'trim', False), ('pp_trim_app_indent = True', 'trim', True), ('pp_reduce_emptiness = 0', 'reduce', False), ('pp_reduce_emptiness = True', 'reduce', True),
        ('pp_browse = True', 'browse', True), ('pp_browse = False', 'browse', False), ('warn_unbound_application = False', 'warn', False), ('warn_unbound_application = True', 'warn', True),
        ('log_level = LOG_LEVEL_ERROR', 'log', 4), ('log_level = LOG_LEVEL_CRITICAL', 'log', 5), ('log_level = LOG_LEVEL_DEBUG', 'log', 1), ('log_level = LOG_LEVEL_WARNING', 'log', 3),
        ('trace_stage = TRACE_STAGE_PARSE', 'stage', 1), ('trace_stage = TRACE_STAGE_EVAL', 'stage', 2), ('trace_stage = TRACE_STAGE_ALL', 'stage', 3), ('trace_stage = TRACE_STAGE_NONE', 'stage', 0),
        ('traceback = TRACEBACK_NONE', 'tb', 0), ('traceback = TRACEBACK_ALL', 'tb', 2), ('traceback = TRACEBACK_PYTHON', 'tb', 1), ("directory.append( 'da' )", 'dirs', 'da'), ("directory += [ 'db' ]", 'dirs', 'db'),
        ("directory = [ 'db' ]", '=dirs', ('db',)), ("directory = []", '=dirs', ()), ("directory.insert( 0, 'da' )", '<dirs', 'da'), ("pp_define.append( 'K:1' )", 'def', 'K:1'), ("pp_define += [ 'K:2', ]", 'def', 'K:2'),
        ("pp_define = [ 'L' ]", '=def', ('L',)), ("pp_define = []", '=def', ()), ('read_only = False', 'ro', False), ('read_only = True', 'ro', True), ('force = True', None, None),
        ("directory = 'da'", '!dirs', ()), ("pp_define = 'K'", '!def', ()), ("pp_trim_app_indent = 'no'", '!trim', True), ("pp_browse = None", '!browse', False), ('import os, sys', None, None),
        ("x = [ 'da' ]; directory.extend( x ); del x", 'dirs', 'da'), ('if pp_reduce_emptiness_ if False else True:\n    pp_browse = True', 'browse', True),
        ('def f():\n    return 2\npp_skip_comments = f()', 'skip', 2)]
FAULTS = ['raise ValueError( 1 )', 'undefined_name', '1 / 0', 'import no_such_module', "int( 'x' )", 'log_level = LOG_LEVEL_', 'del nothing', "directory.append()", 'del directory', 'del pp_define', 'del dependency',
          'assert False']
BROKEN = ['log_level =', 'def', ' x = 1\ny', "directory.append( 'da'", '"""', '\xe9 = (', 'return 5 5']
NOTHING = ['', '# nothing\n', '\n\n', '# coding: utf8\n"\xe9"\n', '\ufeff# bom\n']


def model(c, key, v):
    c = dict(c)
    if key is None:
        return c
    if key[0] in '=!':
        c[key[1:]] = v
    elif key[0] == '<':
        c[key[1:]] = (v,) + c[key[1:]]
    elif key in LISTS:
        c[key] = c[key] + (v,)
    else:
        c[key] = v
    return c


def proc(fn):
    with h.captured() as cap:
        (ok, name) = h.yup.proc_file(fn)
    return ok, None, cap.logs


def apply_all(c, stmts):
    for i in stmts:
        c = model(c, SETS[i][1], SETS[i][2])
    return c


def odd(stmts):
    """Something is added to what is no list: a fault of the settings."""
    bad = set()
    for i in stmts:
        k = SETS[i][1] or ''
        if k[:1] == '!':
            bad.add(k[1:])
        elif k[:1] == '=':
            bad.discard(k[1:])
        elif k.lstrip('<') in bad:
            return True
    return False


def check_settings(case, ctx):
    project, file_, base = case
    if odd(list(project) + list(file_)):
        return None
    os.chdir(ctx.dir())
    setup_tree(base)
    c = apply_all(dict(DEFAULT), project)
    f = apply_all(c, file_)
    ctx.state(effective(f))
    if project:
        put('.yuconfig', '\n'.join(SETS[i][0] for i in project) + '\n')
    keys = {(SETS[i][1] or '').lstrip('=!<') for i in list(project) + list(file_)}
    problems = []
    try:
        for n, name in enumerate(NAMES):
            if name[0] == 'q' and not keys & {'skip'} or name[0] == 'e' and not keys & {'tb', 'log'} or name[0] == 'i' and not keys & {'dirs'}:
                continue
            b = base + name.split('.')[0] + '.yuconfig'
            if file_:
                put(b, '\n'.join(SETS[i][0] for i in file_) + '\n')
            observe(name, proc, f, base, problems)
            # -- another file of the project has no part in it
            if file_:
                os.remove(b)
                observe(name, proc, c, base, problems)
    finally:
        h.reset_shell()
        h.yugen.trace.set_current(0)
    if problems:
        raise Violation('project %r, file %r: %s\nexpected options %r' % ([SETS[i][0] for i in project], [SETS[i][0] for i in file_], '; '.join(problems), f))
    return effective(f)


def check_fault(case, ctx):
    """A faulty settings file: reported, and what is not of it stays."""
    fault, where, before, other = case
    os.chdir(ctx.dir())
    setup_tree()
    c = dict(DEFAULT)
    texts = {}
    stmts = {'project': [], 'file': []}
    stmts[where] = [before] if before is not None else []
    o = 'file' if where == 'project' else 'project'
    stmts[o] = [other] if other is not None else []
    broken = fault in BROKEN
    for place in ('project', 'file'):
        text = ''.join(SETS[i][0] + '\n' for i in stmts[place])
        if place == where:
            text += fault + '\n' + 'pp_trim_app_indent = False\n'
            if not broken:
                # -- up to its fault
                c = apply_all(c, stmts[place])
            # -- a list that is deleted
            for w, k in (('del directory', 'dirs'), ('del pp_define', 'def')):
                if fault == w:
                    c[k] = ()
            if fault.startswith('del ') and fault != 'del nothing':
                c['trim'] = False
        else:
            if place == 'file' and other is not None and fault in ('del directory', 'del pp_define') and SETS[other][1].lstrip('=<!') in ('dirs', 'def'):
                return None
            c = apply_all(c, stmts[place])
        texts[place] = text
    put('.yuconfig', texts['project'])
    problems = []
    name = 'p.yu-c'
    put('p.yuconfig', texts['file'])
    reported = []

    def run(fn):
        ok, out, logs = proc(fn)
        reported.extend(m for lv, m in logs if 'configuration script' in m)
        return ok, out, logs
    try:
        observe(name, run, c, '', problems)
    finally:
        h.reset_shell()
        h.yugen.trace.set_current(0)
    legal = fault in ('del directory', 'del pp_define', 'del dependency')
    if not legal and len(reported) != 1 or legal and reported:
        problems.append('reports %r' % reported)
    elif reported and ('.yuconfig' if where == 'project' else 'p.yuconfig') not in reported[0]:
        problems.append('report of another file %r' % reported)
    if problems:
        raise Violation('settings %r: %s\nexpected options %r' % (texts, '; '.join(problems), c))
    return effective(c)


SOURCES = ['p.yu-c', 'p.q.yu-c', 'd.e/p.yu-c', 'd.e/p.q.yu-c', './p.yu-c', '../o.o/p.yu-c', 'p q.yu-c', 'p-q.yu-c', 'd/p.yu-c', '.h.yu-c', 'p.yu-yu-c', 'p.c.yu-c',
           '\xe9.yu-c', 'P.yu-c']


def check_source(case, ctx):
    """The settings of a source are in the file of the same name and place, and in no other."""
    src, spot = case
    root = ctx.dir()
    os.mkdir('%s/w' % root)
    os.chdir(os.path.join(root, 'w'))
    put(src, '<($K)>\n')
    d, b = os.path.split(src)
    own = os.path.join(d, b[:b.rindex('.')]) + '.yuconfig'
    others = [os.path.join(d, b.split('.')[0] or 'x') + '.yuconfig', os.path.join(d, b) + '.yuconfig', b[:b.rindex('.')] + '.yuconfig', os.path.join(d, '.yuconfig'),
              os.path.join(d, 'yuconfig'), os.path.join(d, b[:b.rindex('.')]), os.path.join(d, b[:b.rindex('.')]) + '.yu-yuconfig', '../.yuconfig', '../p.yuconfig',
              src.replace('.yu-c', '.c') + '.yuconfig', src.split('.')[0] + '.yuconfig', 'q.yuconfig']
    files = [own] if spot == 'own' else [x for x in others if os.path.normpath(x) not in (os.path.normpath(own), '.yuconfig')]
    for f in files:
        put(f, 'pp_define.append( "K:7" )\n')
    try:
        ok, _, logs = proc(src)
        out = src[:src.rindex('.')] + '.' + src[src.rindex('.') + 4:]
        with open(out) as f:
            got = f.read().strip()
    finally:
        h.reset_shell()
        h.yugen.trace.set_current(0)
    want = '<7>' if spot == 'own' else '<K>'
    if got != want:
        raise Violation('source %r, settings in %r: %r, not %r' % (src, files, got, want))
    return got


HIST = [[], [1, 4], [6, 8], [10], [20], [23, 28], [25, 29], [5, 7, 9], [13], [16], [32]]


def check_history(case, ctx):
    """Files with settings of their own, one after another."""
    seq, project = case
    os.chdir(ctx.dir())
    setup_tree()
    c0 = apply_all(dict(DEFAULT), HIST[project])
    if HIST[project]:
        put('.yuconfig', '\n'.join(SETS[i][0] for i in HIST[project]) + '\n')
    problems = []
    try:
        for n, s in enumerate(seq):
            c = apply_all(c0, HIST[s])
            d = 'd%d/' % n
            for name in NAMES:
                put(d + name, '')
            setup_tree(d)
            for name in ('p.yu-c', 'e1.yu-c', 'i1.yu-c'):
                b = d + name.split('.')[0] + '.yuconfig'
                put(b, '\n'.join(SETS[i][0] for i in HIST[s]) + '\n')
                observe(name, proc, c, d, problems)
            ctx.state((effective(c0), effective(c)))
            if problems:
                break
    finally:
        h.reset_shell()
        h.yugen.trace.set_current(0)
    if problems:
        raise Violation('project %r, files %r: %s' % ([SETS[i][0] for i in HIST[project]], [[SETS[i][0] for i in HIST[s]] for s in seq], '; '.join(problems)))
    return len(seq)


def families(tier):
    t = tier == 'thorough'
    n = range(len(ARGS))
    m = range(len(SETS))
    same = [[a, b, c] for g in GROUPS.values() for a in g for b in g for c in g]
    idx2 = [list(x) for x in Words(n, 2)]
    few = [0, 1, 3, 5, 7, 8, 11, 15, 19, 22, 25, 26, 28, 29, 32, 33, 34, 36]
    pairs = [[a, b] for a in few for b in few]
    bykey = {}
    for i, s in enumerate(SETS):
        bykey.setdefault((s[1] or '').lstrip('=!<'), []).append(i)
    conflict = [[a, b, c] for g in bykey.values() for a in g for b in g for c in g]
    return [
        Family('command', Prod(Sum(idx2 if t else [x for x in idx2 if len(x) < 2] + pairs, same), ['plain']), check_command, 'every pair of arguments'),
        Family('styles', Prod([x for x in idx2 if len(x) < 2] + same if t else [x for x in idx2 if len(x) < 2] + same[::3], ['response', 'files-first', 'middle']), check_command, 'response files and places of the arguments'),
        Family('several', Prod([x for x in idx2 if len(x) < 2 and 36 not in x and 37 not in x], [['w.yu-c', '*'], ['none', '*'], ['*', 'e1.yu-c'], ['v.yu-c', '*', 'w.yu-c'], ['e2.yu-c', 'i3.yu-c', '*']]), check_several,
               'several inputs'),
        Family('bad', Prod([[], ['-q'], ['--pp-browse']], BADARGS, [['p.yu-c'], []]), check_bad, 'bad arguments'),
        Family('settings', Prod(Map(list, Words(m, 1)), Map(list, Words(m, 1)), ['', 'sub/']), check_settings, 'every statement in the project settings with every one in the file settings'),
        Family('two', Prod([[a, b] for a, b in ((x[0], x[1]) for x in conflict)][::1 if t else 3], [[]] + [[i] for i in (m if t else (4, 6, 23, 25, 28))], ['']), check_settings, 'two statements on one option'),
        Family('faults', Prod(FAULTS + BROKEN, ['project', 'file'], [None] + [1, 6, 8, 10, 23, 28, 32], [None] + [2, 7, 9, 24, 29] if not t else [None] + list(m[:35])), check_fault, 'faulty settings'),
        Family('sources', Prod(SOURCES, ['own', 'others']), check_source, 'every name of a source'),
        Family('history', Prod(Map(list, Words(range(len(HIST)), 3 if t else 2, 1)), range(len(HIST)) if t else [0, 1, 5, 6]), check_history, 'sequences of files with settings'),
    ]
