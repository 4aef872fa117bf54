"""Drives the code under test through its public surface.

translate(): one translation of a text, the way the shell does it (reset, parse, evaluate, clean up), without files.
cli(), proc_file(), proc_stream(): the shell entry points, in process, with output and log captured.
"""
import logging
import os
import sys

from engine import REPO, Sink

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)

_stdout = sys.stdout
from pp import yugen, yup  # noqa: E402


class Logs(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.rec = []

    def emit(self, r):
        self.rec.append((r.levelno, r.getMessage()))


LOG = Logs()
TRACE = Logs()


def install():
    for lg, h in ((yugen.log, LOG), (yugen.trace, TRACE)):
        lg.propagate = False
        for x in list(lg.handlers):
            lg.removeHandler(x)
        lg.addHandler(h)


install()
CONFIG_KEYS = ('pp_skip_comments', 'pp_trim_app_indent', 'pp_reduce_emptiness', 'pp_browse', 'pp_define',
               'warn_unbound_application', 'directory', 'passage')


class Out(object):
    """ok: success; text: what was produced; logs: [(level, message)]"""
    __slots__ = ('ok', 'text', 'logs', 'raised')

    def __init__(self, ok, text, logs, raised=None):
        self.ok, self.text, self.logs, self.raised = ok, text, logs, raised

    @property
    def errors(self):
        return [m for lv, m in self.logs if lv >= logging.ERROR]

    @property
    def warnings(self):
        return [m for lv, m in self.logs if lv == logging.WARNING]

    def __repr__(self):
        return 'Out(ok=%r, text=%r, errors=%r)' % (self.ok, self.text, self.errors)


_pp = getattr(yup, '_pp', None)


def configure(**cfg):
    """Defaults, then the given options."""
    yugen.config()
    for k, v in cfg.items():
        assert k in CONFIG_KEYS, k
        setattr(yugen.config, k, v)


def reset_shell():
    yup.shell()
    yugen.log.setLevel(logging.DEBUG)
    yugen.trace.stage = 0


def _translate(text, inp, outp):
    yugen.yushell(text, inp, outp)
    yugen.yuinit()
    if _pp is not None:
        return _pp()
    # -- the same steps, should the shell be reorganized
    try:
        ast = yugen.yuparse(yugen.yushell.input_file)
        plain = yugen.yueval(ast)
    except Exception as e:
        yugen.log.error('%s: %s' % (type(e).__name__, e))
        return False, ''
    if isinstance(plain, str):
        return True, yugen.replace_steady(yugen.reduce_emptiness(plain))
    yugen.log.error('unable to translate input text into plain text')
    return False, yugen.make_ast_readable(plain)


def translate(text, inp=None, outp=None, **cfg):
    """One translation under a configuration (default options otherwise)."""
    configure(**cfg)
    del LOG.rec[:]
    ok, plain = _translate(text, inp, outp)
    if type(plain) is str:
        return Out(ok, plain, LOG.rec[:])
    return Out(ok, plain, LOG.rec[:])


class Capture(object):
    """A text stream that keeps what is written."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return ''.join(self.parts)


class captured(object):
    """Context: log records and standard output collected."""

    def __enter__(self):
        del LOG.rec[:]
        self.old = sys.stdout
        self.out = sys.stdout = Capture()
        return self

    def __exit__(self, *a):
        sys.stdout = self.old
        self.logs = LOG.rec[:]
        self.stdout = self.out.getvalue()
        return False


def cli(args):
    """(exit value, stdout, logs); the exit value of a SystemExit is returned as ('exit', code)."""
    with captured() as c:
        try:
            rc = yup.cli(list(args))
        except SystemExit as e:
            rc = ('exit', e.code)
    return rc, c.stdout, c.logs


def proc_file(fn):
    """((ok, output name), stdout, logs)"""
    with captured() as c:
        r = yup.proc_file(fn)
    return r, c.stdout, c.logs


reset_shell()


# --------------------------------------------------------------------------- parsing alone
class Odd(Exception):
    """The tree has a shape this harness does not know (a reorganized parser)."""


def _lval(x):
    return [str(y) for y in x] if isinstance(x, list) else str(x)


def tree(x):
    """The parser's tree in the form of refparse."""
    k = type(x).__name__
    if k == 'TEXT':
        return ('text', [tree(y) for y in x.ast])
    if k == 'PLAIN':
        return ('plain', str(x))
    if k in ('REMARK', 'SOURCE'):
        return ('rem', str(x))
    if k == 'STR':
        return ('str', str(x))
    if k == 'INT':
        return ('int', int(x))
    if k == 'FLOAT':
        return ('float', float(x))
    if k == 'SET':
        return ('set', _lval(x.lval), tree(x.ast))
    if k == 'LET':
        return ('let', _lval(x.lval), tree(x.ast), tree(x.form))
    if k == 'MACRO':
        return ('macro', str(x.name), [str(p) for p in x.pars], str(x.text))
    if k == 'COMMENT':
        return ('comment',)
    if k == 'APPLY':
        return ('apply', tree(x.fn), [tree(y) for y in x.args], [(str(n), tree(f)) for n, f in x.named])
    if k == 'EVAL':
        return ('eval', tree(x.ast))
    if k == 'EMIT':
        return ('emit', tree(x.var), None if x.ast is None else tree(x.ast))
    if k == 'INFIX':
        return ('infix', tree(x.ast))
    if k == 'LIST':
        return ('list', [tree(y) for y in x])
    if k == 'EMBED':
        return ('embed', tree(x.ast))
    if k == 'COND':
        return ('cond', tree(x.cond), tree(x.leg_1), None if x.leg_0 is None else tree(x.leg_0))
    if k == 'VAR':
        return ('var', '&' if type(x.reg).__name__ == 'LATE_BOUND' else [str(r) for r in x.reg], str(x.atom))
    if k == 'LAMBDA':
        b = x.bound
        return ('lambda', tree(b) if type(b).__name__ == 'VAR' else
                [([str(y) for y in late], str(n), None if d is None else tree(d)) for late, n, d in b], tree(x.l_form))
    if k in ('IMPORT_BEGIN', 'IMPORT_END'):
        return (k,)
    raise Odd(k)


def parse(text, inp=None, outp=None, **cfg):
    """(tree, None) or (None, exception)"""
    configure(**cfg)
    del LOG.rec[:]
    yugen.yushell(text, inp, outp)
    yugen.yuinit()
    try:
        ast = yugen.yuparse(yugen.yushell.input_file)
    except Exception as e:
        return None, e
    return tree(ast), None
