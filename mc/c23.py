"""C23: coroutines of the bundled libraries, compiled, run as they are written under every schedule."""
import itertools
import os
import subprocess

from engine import REPO, TIER, Family, Map, Prod, Sum, Violation, Words
import harness as h

LEVEL = 'model_checking'
RULE = ('every body of up to N statements (also within loops and branches), every pair of bodies of up to two statements, in both '
        'generated variants, compiled and run under every sequence of resumptions and external events of a given length; the trace '
        'of every schedule is compared with a model of coroutines; distinct = different sets of traces')
ASSUMPTIONS = ['gcc; computed jumps into statement expressions, which coroutine.h relies on, are kept by it',
               'a coroutine does not resume itself; what must persist is declared coro-local',
               'the Python variant ends by coro-quit']

LIB = os.path.join(REPO, 'lib')
HEAD = '''($set corolib-use-c-macro %d)
($import corolib)
#include <stddef.h>
#include <stdio.h>
($coro-h)
static void t( int c ) { putchar( c ); }
static int both( int a, int b ) { return a && b; }
static int g;
static semaphore_t s, s2;
'''
CHILD = ['Y']
STATE_EVENTS = 'gr'


# --------------------------------------------------------------------------- bodies
# a statement is a letter or a tuple (block, statements); after each statement the body says where it is
def mark(n, who):
    return chr((65 if who == 'B' else 97) + n % 26)


def c_text(stmts, who, kid, ind='\t', count=None):
    count = count if count is not None else [0]
    out = ''
    for x in stmts:
        if isinstance(x, str):
            out += ind + {
                'Y': '($coro-yield);', 'W': '($coro-wait g);', 'V': '($coro-wait,,both( g, s > 0 ));', 'N': '($coro-wait,,!g);', 'Q': '($coro-quit);', 'R': '($coro-restart);',
                'I': "t( '0' + ++n );", 'A': '($semaphore-acquire s);', 'L': '($semaphore-release s);', 'G': 'g = 1;', 'H': 'g = 0;',
                'C': '($coro-wait-coro,,($coro-call %s));' % kid.replace('K', 'B'), 'K': '($coro-wait-coro ($coro-call %s));' % kid,
            }[x] + '\n'
        else:
            kind, body = x
            k = count[0]
            open_, close = {
                'for': ('for ( i%d = 0; i%d < 2; ++i%d ) {' % (k, k, k), '}'), 'if': ('if ( g ) {', '}'), 'else': ('if ( g ) { t( \'+\' ); } else {', '}'), 'ever': ('for ( ; ; ) {', '}'),
                'case': ("switch ( g ) {\n" + ind + "case 0: t( '0' ); break;\n" + ind + 'default:', '}'), 'do': ('do {', "} while ( g );"),
            }[kind]
            count[0] += 1
            out += ind + open_ + '\n' + c_text(body, who, kid, ind + '\t', count) + ind + close + '\n'
        out += ind + "t( '%s' );\n" % mark(count[0], who)
        count[0] += 1
    return out


class Quit(Exception):
    pass


class Restart(Exception):
    pass


class World(object):
    def __init__(self):
        self.g, self.s, self.out = 0, 1, []


def run(stmts, who, w, me, kid, count):
    """The body as a generator of status codes."""
    for x in stmts:
        if isinstance(x, str):
            if x == 'Y':
                yield 2
            elif x == 'W':
                while not w.g:
                    yield 1
            elif x == 'V':
                while not (w.g and w.s > 0):
                    yield 1
            elif x == 'N':
                while w.g:
                    yield 1
            elif x == 'Q':
                raise Quit()
            elif x == 'R':
                raise Restart()
            elif x == 'I':
                me['n'] += 1
                w.out.append(chr(48 + me['n']))
            elif x == 'A':
                while not w.s > 0:
                    yield 1
                w.s -= 1
            elif x == 'L':
                w.s += 1
            elif x == 'G':
                w.g = 1
            elif x == 'H':
                w.g = 0
            else:
                while next(kid[x]) < 3:
                    yield 1
        else:
            kind, body = x
            count[0] += 1
            start = count[0]
            again = True
            rounds = 0
            if kind in ('if', 'case', 'else') and bool(w.g) == (kind == 'else'):
                if kind == 'case':
                    w.out.append('0')
                if kind == 'else':
                    w.out.append('+')
                again = False
                # -- marks are numbered by place
                count[0] = start + size(body)
            while again:
                count[0] = start
                for c in run(body, who, w, me, kid, count):
                    yield c
                rounds += 1
                again = kind == 'ever' or kind == 'do' and w.g or kind == 'for' and rounds < 2
        w.out.append(mark(count[0], who))
        count[0] += 1


def size(body):
    return sum(1 if isinstance(x, str) else 2 + size(x[1]) for x in body)


def coroutine(stmts, who, w, kid, enter='', exit_=''):
    while True:
        me = {'n': 0}
        try:
            w.out.append(enter)
            for c in run(stmts, who, w, me, kid, [0]):
                w.out.append(exit_)
                yield c
                w.out.append(enter)
        except Restart:
            w.out.append(exit_)
            yield 2
            continue
        except Quit:
            pass
        w.out.append(exit_)
        yield 3
        break
    while True:
        w.out.append(enter + exit_)
        yield 3


STYLES = {'plain': ('', ''), 'enter': ('(', ''), 'exit': ('', ')'), 'both': ('(', ')')}


def model(pair, style, events, length):
    """Traces of all schedules, in order."""
    a, b = pair
    enter, exit_ = STYLES[style]
    traces = []
    for sched in itertools.product(events, repeat=length):
        w = World()
        kid = {}
        kid['K'] = coroutine(CHILD, 'K', w, {})
        kid['C'] = co_b = coroutine(b, 'B', w, kid, enter, exit_)
        co_a = coroutine(a, 'A', w, kid, enter, exit_)
        for e in sched:
            if e == 'g':
                w.g = not w.g
            elif e == 'r':
                w.s += 1
            else:
                r = next(co_a if e == 'a' else co_b if e == 'b' else kid['K'])
                w.out.append('%d%s' % (r, '.' if r < 3 else '!'))
        traces.append(''.join(w.out))
    return traces


def blocks(stmts):
    n = 0
    for x in stmts:
        if isinstance(x, tuple):
            n += 2 + blocks(x[1])
        else:
            n += 1
    return n


def spins(stmts, inside=False):
    """Whether a body can run on for ever between two suspensions (inadmissible)."""
    return any(isinstance(x, tuple) and (x[0] in ('ever', 'do') and 'Y' not in x[1] or spins(x[1])) for x in stmts)


def program(pairs, style, variant, events, length):
    """One program for several pairs: every pair under every schedule."""
    text = HEAD % variant
    enter, exit_ = STYLES[style]
    for n, (a, b) in enumerate(pairs):
        k = 'K%d' % n
        for who in 'ABK':
            text += '($coro-context %s%d);\n($coro-declare %s%d);\n' % (who, n, who, n)
        for who, body in (('K', CHILD), ('A', a), ('B', b)):
            vars_ = sorted(set('i%d' % x for x in range(blocks(body) + 1))) + ['n']
            text += '($coro-define %s%d ]\n\tn = 0;\n%s[ \\enter ]\n\t($coro-local) int %s;\n%s[' % (
                who, n, c_text(body, who, k), ', '.join(vars_), "\tt( '%s' );\n" % enter if enter and who != 'K' else '')
            text += ' \\exit ]\n%s[' % "\tt( '%s' );\n" % exit_ if exit_ and who != 'K' else ''
            text += ' )\n'
        text += 'static void reset%d( void )\n{\n\tg = 0;\n\t($semaphore-init s 1);\n%s}\n' % (n, ''.join('\t($coro-context-init %s%d);\n' % (who, n) for who in 'ABK'))
        for who in 'ABK':
            text += "static void call_%s%d( void )\n{\n\tint r = ($coro-call %s%d);\n\tt( '0' + r );\n\tt( ($coro-alive r) ? '.' : '!' );\n}\n" % (who, n, who, n)
    n = len(pairs)
    text += 'static void ( *const reset[])( void ) = { %s };\n' % ', '.join('reset%d' % x for x in range(n))
    for who in 'ABK':
        text += 'static void ( *const call_%s[])( void ) = { %s };\n' % (who, ', '.join('call_%s%d' % (who, x) for x in range(n)))
    text += '''
int main( void )
{
	const char ev[] = "%s";
	int p, k, j, total = 1;
	for ( j = 0; j < %d; ++j ) total *= %d;
	for ( p = 0; p < %d; ++p ) {
		for ( k = 0; k < total; ++k ) {
			int d = total, x = k;
			reset[ p ]();
			for ( j = 0; j < %d; ++j ) {
				d /= %d;
				switch ( ev[ x / d ]) {
				case 'a': call_A[ p ](); break;
				case 'b': call_B[ p ](); break;
				case 'k': call_K[ p ](); break;
				case 'g': g = !g; break;
				case 'r': ++s; break;
				}
				x = x %% d;
			}
			t( '\\n' );
		}
	}
	return 0;
}
''' % (events, length, len(events), n, length, len(events))
    return text


def build(d, pairs, style, variant, events, length):
    """Traces of the compiled program or a Violation."""
    text = program(pairs, style, variant, events, length)
    o = h.translate(text, os.path.join(d, 'm.yu-c'), os.path.join(d, 'm.c'), directory=[LIB])
    if not o.ok or o.errors:
        return None, 'translation fails: %s' % o.errors
    with open(os.path.join(d, 'm.c'), 'w') as f:
        f.write(str(o.text))
    out = None
    for opt in ['-O0', '-O2'] if TIER == 'thorough' else ['-O0']:
        p = subprocess.run(['gcc', opt, '-w', '-I' + LIB, 'm.c', '-o', 'm'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        if p.returncode:
            return None, 'gcc fails: %s' % p.stderr.decode('utf-8', 'replace')[:600]
        try:
            p = subprocess.run([os.path.join(d, 'm')], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=20)
        except subprocess.TimeoutExpired:
            return None, 'the program does not end'
        if p.returncode:
            return None, 'the program ends with %d' % p.returncode
        got = p.stdout.decode('latin-1')
        if out is not None and got != out:
            return None, 'another trace with optimisation'
        out = got
    return out, None


def show(pair, style, variant):
    t = program([pair], style, variant, 'a', 1)
    return t[len(HEAD % variant):t.index('static void reset')]


def compare(pairs, style, events, length, ctx):
    want = [model(p, style, events, length) for p in pairs]
    d = ctx.dir()
    for variant in (0, 1):
        out, bad = build(d, pairs, style, variant, events, length)
        if bad and len(pairs) > 1:
            # -- which one
            for p in pairs:
                _, one = build(d, [p], style, variant, events, length)
                if one:
                    raise Violation('%s variant: %s\n%s' % (('direct', 'macro')[variant], one, show(p, style, variant)))
        if bad:
            raise Violation('%s variant: %s\n%s' % (('direct', 'macro')[variant], bad, show(pairs[0], style, variant)))
        got = out.split('\n')[:-1]
        flat = [(p, k, x) for p, w in zip(pairs, want) for k, x in enumerate(w)]
        if len(got) != len(flat):
            raise Violation('%d traces of %d' % (len(got), len(flat)))
        if got != [x[2] for x in flat]:
            for g, (p, k, x) in zip(got, flat):
                if g != x:
                    sched = list(itertools.product(events, repeat=length))[k]
                    raise Violation('%s variant, schedule %s: expected %s, got %s\n%s' % (('direct', 'macro')[variant], ''.join(sched), x, g, show(p, style, variant)))
        ctx.count('schedules', len(flat))
        for x in flat:
            ctx.state(x[2])
    return '\n'.join('|'.join(x) for x in want)


# --------------------------------------------------------------------------- spaces
BASE = ['Y', 'W', 'Q', 'R', 'I', 'A', 'L', 'G', 'H', 'K']
SMALL = ['Y', 'W', 'N', 'Q', 'R', 'I', 'A', 'L', 'G', 'H']
N = 24


def words(alphabet, hi):
    return [list(w) for k in range(hi + 1) for w in itertools.product(alphabet, repeat=k)]


def batched(make):
    memo = []

    def get():
        if not memo:
            memo.append(make())
        return memo[0]
    return get


SEQ = batched(lambda: [(w, CHILD) for w in words(BASE, 4 if TIER == 'thorough' else 3)])
KINDS = ['for', 'if', 'else', 'ever', 'case', 'do']


def make_blocks():
    inner = words(['Y', 'W', 'V', 'Q', 'R', 'I', 'G', 'H', 'K'], 3 if TIER == 'thorough' else 2)[1:]
    one = [(k, w) for k in KINDS for w in inner if not spins([(k, w)])]
    res = [([b] + t, CHILD) for b in one for t in ([], ['Y'], ['I'])]
    small = [(k, [x, 'Y']) for k in KINDS for x in 'WIGHQ']
    res += [([(k, [b] + t)], CHILD) for k in KINDS for b in small for t in (['Y'], ['I', 'Y'])]
    res += [([b, c], CHILD) for b in small for c in small]
    return res


BLOCKS = batched(make_blocks)
PAIRS = batched(lambda: [(a, b) for a in words(SMALL + ['C', 'K'], 2) for b in words(SMALL + ['K'] if TIER == 'thorough' else list('YWQRGHAL'), 2)
                         if TIER == 'thorough' or len(a) + len(b) < 4])


def batches(get):
    return Map(int, range((len(get()) + N - 1) // N))


def sequences(case, ctx):
    n, style = case
    return compare(SEQ()[n * N:n * N + N], style, 'agr', 6, ctx)


def nested(case, ctx):
    n, style = case
    return compare(BLOCKS()[n * N:n * N + N], style, 'agk', 6, ctx)


def pairs(case, ctx):
    n, style = case
    return compare(PAIRS()[n * N:n * N + N], style, 'abg', 5, ctx)


# --------------------------------------------------------------------------- generators in Python
def py_text(stmts, who, kid, ind='    ', count=None):
    count = count if count is not None else [0]
    out = ''
    for x in stmts:
        if isinstance(x, str):
            out += ind + {'Y': '($coro-yield)', 'W': '($coro-wait g)', 'N': '($coro-wait-not g)', 'V': '($coro-wait,,both( g, s > 0 ))', 'Q': '($coro-quit)', 'I': 'n += 1; t( str( n ))', 'G': 'g = 1', 'H': 'g = 0',
                          'K': '($coro-wait-not,,($coro-alive,,($coro-call %s)))' % kid, 'C': '($coro-wait-not,,($coro-alive,,($coro-call B)))'}[x] + '\n'
        else:
            kind, body = x
            k = count[0]
            count[0] += 1
            out += ind + {'for': 'for i in range( 2 ):', 'if': 'if g:', 'ever': 'while True:'}[kind] + '\n' + py_text(body, who, kid, ind + '    ', count)
        out += ind + "t( '%s' )\n" % mark(count[0], who)
        count[0] += 1
    return out


PY = ['Y', 'W', 'N', 'Q', 'I', 'G', 'H', 'K']


def make_py():
    res = [(a, b) for a in words(PY + ['C'], 2) for b in words(PY, 2)]
    inner = words(['Y', 'W', 'Q', 'I', 'G', 'H', 'K'], 2)[1:]
    one = [(k, w) for k in ('for', 'if', 'ever') for w in inner if not spins([(k, w)])]
    res += [([b] + t, CHILD) for b in one for t in ([], ['Y'], ['I'])]
    res += [(w, CHILD) for w in words(PY, 4 if TIER == 'thorough' else 3)]
    return res


PYS = batched(make_py)


def python(case, ctx):
    n, = case
    events, length = 'abg', 5
    for pair in PYS()[n * N:n * N + N]:
        a, b = pair
        text = '($import coroutine-py)\ng, s, out = 0, 1, []\ndef both( a, b ):\n    return a and b\ndef t( c ):\n    out.append( c )\n'
        for who, body in (('K', CHILD), ('A', a), ('B', b)):
            text += 'def ($coro %s):\n    global g\n    n = 0\n%s    ($coro-quit)\n' % (who, py_text(body, who, 'K'))
        text += 'def reset():\n    global g, A, B, K\n    g = 0\n    del out[ : ]\n' + ''.join('    ($coro-init %s)\n' % w for w in 'ABK')
        text += 'def finish():\n' + ''.join('    ($coro-uninit %s)\n' % w for w in 'ABK')
        for who in 'ABK':
            text += "def call_%s():\n    r = ($coro-call %s)\n    t( '%%d%%s' %% ( r, '.' if ($coro-alive r) else '!' ))\n" % (who, who)
        o = h.translate(text, 'm.yu-py', 'm.py', directory=[LIB])
        if not o.ok or o.errors:
            raise Violation('translation fails: %s\n%s' % (o.errors, text))
        ns = {'__name__': 'm'}
        try:
            exec(compile(str(o.text), 'm.py', 'exec'), ns)
        except SyntaxError as e:
            raise Violation('the program is wrong: %s\n%s\n%s' % (e, text, o.text))
        want = model(pair, 'plain', events, length)
        for sched, w in zip(itertools.product(events, repeat=length), want):
            ns['reset']()
            try:
                for e in sched:
                    if e == 'g':
                        ns['g'] = not ns['g']
                    else:
                        ns['call_' + e.upper()]()
            except Exception as e:      # pylint: disable=broad-except
                raise Violation('schedule %s raises %s: %s\n%s' % (''.join(sched), type(e).__name__, e, text))
            got = ''.join(ns['out'])
            ns['finish']()
            if got != w:
                raise Violation('Python, schedule %s: expected %s, got %s\n%s' % (''.join(sched), w, got, text))
            ctx.count('schedules', 1)
            ctx.state(w)
    return n


def families(tier):
    return [
        Family('sequences', Prod(batches(SEQ), sorted(STYLES) if tier == 'thorough' else ['both', 'plain']), sequences, 'bodies of a few statements, %d a case, under every schedule of calls, events and releases of six steps' % N, chunk=1),
        Family('blocks', Prod(batches(BLOCKS), ['plain', 'both'] if tier == 'thorough' else ['both']), nested, 'bodies with loops and branches', chunk=1),
        Family('pairs', Prod(batches(PAIRS), ['both'] if tier != 'thorough' else sorted(STYLES)), pairs, 'pairs of coroutines under every interleaving', chunk=1),
        Family('python', Prod(batches(PYS)), python, 'pairs of coroutines in Python', chunk=1),
    ]
