"""C08: regenerated text"""
from ..report import *

LINE = 'gcodeutils.gcoder.PyLine'
UNSPLIT = 'gcodeutils.gcoder.unsplit'
WORDS = [('x', '.3f'), ('y', '.3f'), ('z', '.3f'), ('e', '.5f'), ('f', '.3f'), ('i', '.3f'), ('j', '.3f')]

EXPLANATION = ('The text a line gets from gcoder.unsplit is computed as a gated value term over every combination of present and absent '
               'coordinates and trailing comment (abstract interpretation, values joined at branches) and compared, leaf by leaf, with the '
               'term the property states: command, one word per present coordinate, the trailing comment. Coordinates and command must come '
               'out unchanged.')


def expected(R, ln, raw):
    out = lift1(lambda l: C('?') if l is NONE else l, R.attr(ln, 'command'))
    words = []
    for w, f in WORDS:
        v = R.attr(ln, w)
        words.append(lift1(lambda l: C('') if l is NONE else strcat([C(' ' + w.upper()), app('fmt', f, l)]), v))
    comment = C('')
    if raw is not NONE:
        comment = ite(str_test('in', raw, ';'), strcat([C(' ;'), after(raw, C(';'))]), C(''))
    return strcat([out] + words + [comment])


def text(c):
    for what, raw in (('line with text', sym('raw', 'str')), ('new line', NONE)):
        R = c.run()
        c.need(R, UNSPLIT)
        w = c.where(R, UNSPLIT)
        ln = R.obj('line', LINE, command=sym('command', 'str'), raw=raw)
        before = {a: R.attr(ln, a) for a, f in WORDS}
        want = expected(R, ln, raw)
        r = R.call(UNSPLIT, ln)
        got = R.attr(ln, 'raw')
        c.seen(R)
        if r is None:
            c.bad('text of a ' + what, w, 'always raises')
            continue
        c.same('text of a ' + what, w, got, want, eq=same_text)
        for a, v in before.items():
            c.same('coordinate %s unchanged (%s)' % (a, what), w, R.attr(ln, a), v)
        c.same('command unchanged (%s)' % what, w, R.attr(ln, 'command'), sym('command', 'str'))
        for g, e, s, m in c.raises(R):
            c.never('no failure (%s)' % what, str(s), g, e)
        c.no_unsup(R)


def prec(f):
    return int(f[1:-1]) if isinstance(f, str) and f[:1] == '.' and f[-1:] == 'f' and f[1:-1].isdigit() else None


def same_text(a, b):
    """equal, up to more decimals than required and up to the order of the words"""
    pa, pb = words_of(a), words_of(b)
    if pa is None or pb is None:
        return None
    if pa[0] is not pb[0] or pa[2] is not pb[2]:
        return None
    wa, wb = pa[1], pb[1]
    if len(wa) != len(wb) or {k for k, v in wa} != {k for k, v in wb}:
        return None
    wb = dict(wb)
    for k, x in wa:
        y = wb[k]
        if x is y:
            continue
        if x.op == 'app' and x.args[0] == 'fmt' and x.args[2] is y.args[2]:
            p, q = prec(x.args[1]), prec(y.args[1])
            if p is not None and p >= q:
                continue
        return None
    return True


def words_of(t):
    """(head, [(letter, value)], comment) of a text made of ' L' value pairs"""
    ps = list(t.args[0]) if t.op == 'cat' else [t]
    head = ps[0]
    words = []
    i = 1
    comment = []
    while i < len(ps):
        p = ps[i]
        if p.op == 'c' and len(p.args[1]) == 2 and p.args[1][0] == ' ' and p.args[1][1].isalpha() and i + 1 < len(ps):
            words.append((p.args[1][1], ps[i + 1]))
            i += 2
            continue
        if p.op == 'c' and p.args[1].startswith(' ;') or p.op == 'c' and p.args[1].startswith(';'):
            comment = ps[i:]
            break
        return None
    return head, words, mk('cat', tuple(comment))


PARTS = [text]
