"""C07: macros and quotations substitute text, then evaluate once."""
from engine import Family, Map, Prod, Sum, Violation, Words
import harness as h
import refeval as r

LEVEL = 'exploration'
RULE = ('every macro body over the token alphabet up to a length x every call, compared with the program that has the '
        'substituted text in place of the call; distinct = different texts or failures')
ASSUMPTIONS = ['arguments whose text contains a parameter reference of the same macro are not explored (the order of '
               'substitution is not documented)', 'bodies start and end with something that is not white space']

PRE = '.($set a A1)($set l (1 2 3 4))($set i 10)($macro n (k)<($k)($a)>)($set f \\v.[{($v)}])'
TOK = ['x', '($p)', '($q)', '($a)', '($set z ($p))', '($z)', '($emit i inc)', '($add 1 ($p))', '"($p)"', 'y($p)y',
       '($n ($q))', '($ \\v.[($v)($p)] ($q))', '($let a ($q) [($a)($p)])', '($p ($q))', '\n', ' ', '($set a Z)', '(($p))',
       '($! ($q))', '($f ($p))', '($set (z a) (($p) ($q)))']
ARGS = ['5', 'xx', '"s t"', '(`u v)', '(`)', '[w]', '($add 2 3)', '(`($a))', '{2 * 4}', '($a)', '()']
VALUE = {'5': '5', 'xx': 'xx', '"s t"': '"s t"', '(`u v)': 'u v', '(`)': '', '[w]': 'w', '($add 2 3)': '5',
         '(`($a))': '($a)', '{2 * 4}': '8', '($a)': 'A1', '()': '()'}
TAIL = ';($i),($a),($z);'
AFTER = ';($i),($a);'


def outcome(text):
    o = h.translate(text)
    return (True, str(o.text)) if o.ok else (False, None), o


def same(text, place, ctx):
    a, oa = outcome(text)
    b, ob = outcome(place)
    if a != b:
        raise Violation('not the same as the text in place\nprogram:  %s\nin place: %s\nexpected %r %s\ngot      %r %s' % (
            text, place, b[1], ob.errors, a[1], oa.errors))
    return repr(a)


def subst(body, pq):
    for k, v in pq:
        body = body.replace('($%s)' % k, VALUE[v])
    return body


def check_macro(case, ctx):
    word, p, q, how = case
    if word and (TOK[word[0]] in ('\n', ' ') or TOK[word[-1]] in ('\n', ' ')):
        return None
    if len(word) > 1 and TOK[word[0]].startswith('($!'):
        return None         # what a comment at the start of a text takes along is a matter of layout
    body = ''.join(TOK[i] for i in word)
    if VALUE[p] == '' or VALUE[q] == '':
        # -- emptied bodies may start or end with white space
        if body.strip(' \n') != body or subst(body, [('p', p), ('q', q)]).strip(' \n') != subst(body, [('p', p), ('q', q)]):
            return None
    place = subst(body, [('p', p), ('q', q)])
    m = '($macro m (p q)%s)' % body
    if how == 0:
        return same(PRE + m + '($m %s %s)' % (p, q) + TAIL, PRE + place + TAIL, ctx)
    if how == 1:        # named arguments, the other way round
        return same(PRE + m + '($m \\q %s \\p %s)' % (q, p) + TAIL, PRE + place + TAIL, ctx)
    if how == 2:        # applied twice
        if '($a)' in (p, q) and '($set' in body:
            return None         # the second call's argument has another value
        call = '($m %s %s)' % (p, q)
        return same(PRE + m + call + ',' + call + TAIL, PRE + place + ',' + place + TAIL, ctx)
    if how == 3:        # scope of the call, not of the definition
        return same(m.join(['.', '']) + PRE[1:] + '($set a A2)' + '($m %s %s)' % (p, q) + TAIL,
                    PRE + '($set a A2)' + subst(body, [('p', p), ('q', q)]).replace('A1', 'A2') + TAIL, ctx) \
            if '($a)' not in (p, q) else None
    if how == 4:        # inside a block; what it assigns stays there
        return same(PRE + m + '($ [($m %s %s);($a)($z)])' % (p, q) + TAIL, PRE + '($ [%s;($a)($z)])' % place + TAIL, ctx)
    if how == 5:        # from another macro (what a called macro assigns is local to the text of the calling one)
        if '($set' in body:
            return None
        return same(PRE + m + '($macro o (c)<($m %s ($c))>)' % p + '($o %s)' % q + TAIL,
                    PRE + '<' + place + '>' + TAIL, ctx) if q not in ('(`u v)', '(`)', '(`($a))', '[w]', '"s t"') else None
    raise AssertionError


FORMS = ['5', 'xx', '"s"', '($a)', '($add 1 ($p))', '(1 ($p) 3)', '($ (1 2) \\v.[<($v)($p)>])', '{1 + ($p)}',
         '($n ($p))', '[x($p)]', '($let a 3 ($p))', '\\v.[($v)($p)]', '($i)', '($emit i inc)', '($emit l)', 'l']
USES = ['($f %s)', '($len (%s %s))', '(${} 1 if ($eq %s 5) else 0)', '($ (7 %s) f)', '($let b %s [($b)($b)])',
        '($set b %s)($b)($b)', '($ yes ? %s | no)', '($ "<($0)>" %s)', '($f ($f %s))', '($ \\c:%s.[($c)($c)])']


def check_form(case, ctx):
    form, use, p = FORMS[case[0]], USES[case[1]], ARGS[case[2]]
    if not VALUE[p].strip() or VALUE[p] in ('u v', 'w', '()', '($a)'):
        return None
    if form[0] in '5x"(\\{[l' and form != 'l' and not form.startswith('($') or form == 'l':
        body = '($ %s)' % form
    else:
        body = form
    n = use.count('%s')
    return same(PRE + '($macro m (p)%s)' % body + use % (('($m %s)' % p,) * n) + AFTER,
                PRE + use % ((subst(body, [('p', p)]),) * n) + AFTER, ctx)


QTOK = ['x', ' ', '\n', '($a)', '($set a 1)', '"', "'", '\\', '[', ']', '(y)', ',,', '($! c)', '{', '}', '(`k)', '($', '&']


def check_quote(case, ctx):
    """A quotation delivers its text untouched."""
    word, how = case
    t = ''.join(QTOK[i] for i in word) + (')' * sum(QTOK[i] == '($' for i in word))
    if how == 0:
        o = h.translate('.(`%s);' % t)
        want = r.clean('.' + t + ';')
    elif how == 1:
        o = h.translate('.($set t (`%s))<|($ \\p.[;($p)|] t)>' % t)
        want = None
        if t.strip() == t and '\n' not in t:
            want = r.clean('.<|;' + t + '|>')
    else:
        o = h.translate('.($quote %s);' % t)
        want = r.clean('. ' + t + ';')
    if want is None:
        return None
    if not o.ok or str(o.text) != want:
        raise Violation('the quotation is not delivered untouched\ntext %r\nexpected %r\ngot      %r %s' % (
            t, want, o.text, o.errors))
    return want


ETOK = ['x', ' ', '($a)', '($set z 4)', '($z)', '($emit i inc)', '($add 1 2)', '(`($a))', '"s"', '($n k)', '\n', '($f 1)']


def check_eval(case, ctx):
    word, how = case
    t = ''.join(ETOK[i] for i in word)
    if not t or t.strip(' \n') != t:
        return None
    if t[0] == t[-1] == '"':
        return None         # a quotation of a string literal passes for that string
    place = t if t.startswith('($') else '($' + t + ')'     # (the sugar for names and applications)
    if how == 0:
        return same(PRE + '($$(`%s))' % t + TAIL, PRE + place + TAIL, ctx)
    if how == 1:
        return same(PRE + '($set t (`%s))($$t)' % t + TAIL, PRE + place + TAIL, ctx)
    # -- a string
    if '"' in t or '\n' in t:
        return None
    return same(PRE + "($$'%s')" % t + TAIL, PRE + place + TAIL, ctx)


def families(tier):
    t = tier == 'thorough'
    nt, na = range(len(TOK)), range(len(ARGS))
    few = ['5', 'xx', '"s t"', '(`u v)']
    return [
        Family('bodies', Prod(Words(nt, 3 if t else 2, 1), ARGS, ARGS, [0, 1, 2, 3, 4, 5]), check_macro,
               'every body of tokens x every pair of arguments x the ways to call'),
        Family('long-bodies', Prod(Words(nt, 4 if t else 3, 3), ['5', '"s t"'], ['xx', '[w]'] if t else ['xx'],
                                   [0, 2] if t else [0]), check_macro, 'longer bodies'),
        Family('forms', Prod(range(len(FORMS)), range(len(USES)), na), check_form, 'macro calls as forms'),
        Family('quotes', Prod(Words(range(len(QTOK)), 4 if t else 3), [0, 1, 2]), check_quote, 'quotations'),
        Family('evals', Prod(Words(range(len(ETOK)), 4 if t else 3, 1), [0, 1, 2]), check_eval, 'evaluated quotations and strings'),
    ]
