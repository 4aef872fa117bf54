"""C02: a source is accepted exactly when the published grammar derives it, and split where the grammar says."""
from engine import Family, Map, Prod, Sum, Violation, Words, Seq
import harness as h
import refparse

LEVEL = 'exploration'
RULE = ('every token sequence of a context in length order, parsed by the real parser and by an independent reference '
        'parser of the published grammar; distinct = different parse trees or rejection positions')
ASSUMPTIONS = ['the token alphabets contain every terminal of the grammar',
               'trees are compared node by node through the constructors the test suite pins']


def check(case, ctx):
    text, py, skip = case
    try:
        want, why = refparse.parse(text, bool(py), skip), None
    except refparse.Reject as e:
        want, why = None, e
    got, exc = h.parse(text, None, 'o.py' if py else 'o.c', pp_skip_comments=skip)
    if want is None:
        if exc is None:
            raise Violation('accepted, but the grammar does not derive it (%s)\n%r' % (why, got))
        if not isinstance(exc, (SyntaxError, EOFError)):
            raise Violation('not reported as a syntax error: %s: %s' % (type(exc).__name__, exc))
        return ('reject', str(why))
    if exc is not None:
        raise Violation('rejected, but the grammar derives it: %s: %s\nexpected %r' % (type(exc).__name__, exc, want))
    if want != got:
        raise Violation('split differently\nexpected %r\ngot      %r' % (want, got))
    return repr(got)


def toks(prefix, alphabet, hi, suffix='', py=0, skip=0, lo=0):
    return Map(lambda w: [prefix + ''.join(w) + suffix, py, skip], Words(alphabet, hi, lo))


def families(tier):
    t = tier == 'thorough'

    def n(q, th):
        return th if t else q

    F = []

    def fam(name, what, *spaces):
        F.append(Family(name, Sum(*spaces) if len(spaces) > 1 else spaces[0], check, what))

    chars = [chr(c) for c in range(0, 0x180)] + ['\u2028', '\ufffd', '\U0001f600']
    ctxs = ['%s', 'a%s', '%sa', '"%s"', "'%s'", '(`%s)', '($!%s)', '($macro m ()%s)', '($a [%s])', '($a,,%s)',
            '($a {%s})', '($a %s)', '($set a%s 1)', '($code%s)', '($a ]%s[)', '($a ]\n%s\n[)', '//%s\n', '#%s\n',
            '/*%s*/', '(%s', '($%s', '($a \\%s)', "'\\%s'", '($a 1%s)', '[%s', '"""%s"""', '($a &%s)', '($a\\b%s.())',
            '($let a 1 %s)', '($emit a %s)', '($a a::%s)', '($ %s)', '($$%s)']
    fam('chars', 'every character 0..17F in every lexical context, both languages, every comment mode',
        Map(lambda c: [c[1] % c[0], c[2], c[3]], Prod(chars, ctxs, [0, 1], [0, 1, 2])))
    fam('text', 'source text tokens', toks('', ['a', ' ', '\n', '(', ')', '[', ']', '($a', '"', "'", '\\', ',,', '($!'],
                                          n(5, 6)))
    expr = ['a', 'b', ' ', '1', '(', ')', '[', ']', '($', '\\b', '.', ':', '*', '?', '|', '"s"', '($a ']
    fam('expression', 'application arguments', toks('($a ', expr, n(4, 5)),
        toks('($a ', expr, n(4, 5), ')'))
    fam('expression2', 'application arguments, remaining terminals',
        toks('($a ', ['a', ' ', '{', '}', '(${}', ')', '&', '::', ',,', ';;', '\\a', '\\b', '..', '(`', '($let ', '-',
                      "'"], n(4, 5), ')'))
    fam('function', 'what follows the opening of an application',
        toks('($', ['a', ' ', '$', '(', ')', '\\b.', '1', '[', ']', '"s"', 'set', 'let', 'quote', 'code', 'emit', '{}',
                    '!', '\n'], n(4, 5)))
    fam('lambda', 'parameters', toks('($', ['\\b', '\\c', '.', '..', '...', ':', '1', ' ', '(', ')', 'a', '[', ']', '\\'],
                                     n(4, 6), ')', lo=1))
    fam('conditional', 'conditionals', toks('($', ['a', '1', '?', '|', ' ', '(', ')', '{1}', '"s"'], n(5, 7), ')'))
    fam('set', 'assignment', toks('($set', ['a', 'b', ' ', '(', ')', '1', '\\set', '\\b.', '*', '['], n(5, 6)),
        toks('($set', ['a', 'b', ' ', '(', ')', '1', '\\set', '\\b.', '*', '['], n(4, 5), ')'))
    fam('let', 'local assignment', toks('($let', ['a', 'b', ' ', '(', ')', '1', '\\let', '($let a 1 2)'], n(6, 7)),
        toks('($a ($let', ['a', 'b', ' ', '(', ')', '1', '\\let'], n(5, 6), '))'))
    fam('emit', 'emit', toks('($emit', ['a', 'b', ' ', '::', ')', '1', '\\emit', '&', '\\b.', '(', '.'], n(5, 6)))
    fam('macro', 'macro', toks('($macro', ['a', 'b', ' ', '(', ')', '1', '($a)', '\n', '"'], n(5, 7)))
    fam('raw', 'quotation and comment', *[toks(p, ['(', ')', 'a', ' ', '\n', '"', '\\', '[', '($'], n(5, 7), ')')
                                         for p in ('(`', '($quote', '($!')])
    for q, what in (('($a ', 'argument'), ('($a [', 'nested')):
        fam('block-' + what, 'text blocks',
            toks(q, [']', '[', '\\[', '\n', ' ', '\\a', '\\', ')', 'x', '('], n(5, 6), ')' if what == 'argument' else '])'))
    fam('block-code', 'code blocks', toks('($code', ['(', ')', '[', 'a', '"', ' ', '($a ', '\n'], n(6, 7), ')'),
        toks('($a ($code', ['(', ')', '[', 'a', '"', ' ', '($a '], n(5, 6), '))'))
    fam('block-comma', 'comma blocks',
        toks('($a', [',,', ';;', '(', ')', 'x', ' ', '\\a', '\\b', ';', ',', '[', '\\'], n(5, 6), ')'))
    fam('infix', 'infix expressions', toks('($a {', ['{', '}', '(', ')', 'a', '"', '($a', '(${}', ' '], n(5, 6), ')'),
        toks('(${}', ['{', '}', '(', ')', 'a', '"', '($a', ' '], n(5, 6), ')'))
    fam('number', 'numeric literals', toks('($a ', ['0', '1', '8', '.', 'e', 'x', 'b', 'o', 'l', '-', '+', ' ', 'f'],
                                          n(4, 6), ')'))
    fam('string-c', 'C literals', toks('', ['"', "'", '\\', 'a', '\n', '($a)', '(', ' '], n(6, 7)),
        toks('($a ', ['"', "'", '\\', 'a', '\n', ')'], n(5, 6), ')'))
    fam('string-py', 'Python literals', toks('', ['"', "'", '\\', 'a', '\n', 'u', 'r', '($a)'], n(5, 7), py=1),
        toks('', ['"', "'", '"""', "'''", '\\', '\n', 'a', '\\\n', '($'], n(5, 7), py=1))
    fam('comment-c', 'skipped C comments', toks('', ['/', '*', '\n', 'a', '($a', ')', '"', "'"], n(6, 7), skip=1),
        toks('($a [', ['/', '*', '\n', 'a', '($a', ')', ']', '"'], n(5, 6), '])', skip=1))
    fam('comment-py', 'skipped Python comments',
        toks('', ['#', '\n', 'a', '($a', ')', '"', "'''", ' '], n(6, 7), py=1, skip=2),
        toks('($a [', ['#', '\n', 'a', '($a', ')', ']', '"'], n(5, 6), '])', py=1, skip=2))
    hdr = ['#', ' ', '\n', '#!/x', '# coding: yupp', '# coding=yupp.utf8', '-*- coding: yupp.ascii -*-', 'coding:',
           'yupp', '.u-8', 'a', '($a)', '\r\n', '# Coding:YUPP']
    fam('header-py', 'Python file headers', toks('', hdr, n(4, 5), py=1))
    fam('header-c', 'the same with C output', toks('', hdr, n(4, 5)))
    fam('nesting', 'deep nesting of every bracketing construct',
        Map(lambda w: [''.join(x[0] for x in w) + 'x' + ''.join(x[1] for x in reversed(w)), 0, 0],
            Words([('($a ', ')'), ('($a [', '])'), ('($a,,', ')'), ('($a (', '))'), ('($code', ')'), ('($let a 1 (', '))'),
                   ('($a \\b.(', '))'), ('($a {', '})'), ('[', ']'), ('(', ')'), ('($set a [', '])'), ('($a ]', '[)'),
                   ('($a ]\n', '\n[)')], n(4, 5))))
    return F
