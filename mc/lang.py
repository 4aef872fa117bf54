"""Runs a program of the reference model on the real code and compares."""
from engine import Violation
import harness as h
import refeval as r


def tup(x):
    """JSON lists back to tuples."""
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x


def agree(nodes, ctx, **cfg):
    """The outcome key; raises Violation if the real code does not yield what the model says."""
    text = r.program(nodes)
    try:
        ok, want = r.run(nodes)
    except r.Unspecified:
        ctx.count('not_judged')
        return None
    got = h.translate(text, **cfg)
    if ok:
        want = r.clean('.' + want)
        if not got.ok:
            raise Violation('translation fails, expected %r\nprogram: %s\nreported: %s' % (want, text, got.errors))
        if str(got.text) != want:
            raise Violation('wrong text\nprogram: %s\nexpected %r\ngot      %r' % (text, want, str(got.text)))
        if got.errors:
            raise Violation('an error is reported for a correct program\nprogram: %s\n%s' % (text, got.errors))
        return want
    if got.ok:
        raise Violation('erroneous program (%s) accepted\nprogram: %s\ngot %r' % (want, text, str(got.text)))
    if len(got.errors) != 1:
        raise Violation('%d error reports for a failure\nprogram: %s\n%s' % (len(got.errors), text, got.errors))
    return 'fails: ' + want
