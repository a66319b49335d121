"""C11: translation"""
from .common import *
from .c12 import expected_with, ATTRS

FLT = 'gcodeutils.filter.translate.GCodeXYTranslateFilter'
EXPLANATION = ('The line rule of the translation filter is interpreted abstractly from the initial state on an optional positioning command, a '
               'position setting with arbitrary words, an arbitrary line and another arbitrary line (every combination of positioning mode and '
               'touched axes is reached by those prefixes). X, Y, all other words, the text and the number of lines are compared as gated value '
               'terms with the reference: absolute moves shifted while the axis is untouched, everything else unchanged.')


def spec(R, before, mode, sx, sy):
    """mode: 'abs' flag diagram; returns (x, y, mode, sx, sy)"""
    cmd = before['command']
    move, g92 = isin(cmd, MOVES), isin(cmd, ('G92',))
    shift = band(move, mode)
    out = []
    bare = TRUE
    for a in ('x', 'y', 'z', 'e'):
        bare = band(bare, is_none_d(before[a]))
    for a, s in (('x', sx), ('y', sy)):
        v = before[a]
        moved = lift2(lambda l, k: NONE if l is NONE else padd(l, k), v, s)
        base = lift1(lambda l: num(0) if l is NONE else l, v)
        setp = lift2(lambda l, k: padd(l, k, -1), base, s)
        named = bnot(is_none_d(v))
        out.append(ite(shift, moved, ite(band(g92, bor(named, bare)), setp, v)))
        out.append(ite(band(g92, bor(named, bare)), num(0), s))
    m2 = ite(isin(cmd, ('G90',)), TRUE, ite(isin(cmd, ('G91',)), FALSE, mode))
    return out[0], out[2], m2, out[1], out[3]


def one_line(c, R, f, ln, mode, sx, sy, care, rule, w):
    before = snapshot(R, ln, ATTRS)
    x2, y2, m2, sx2, sy2 = spec(R, before, mode, sx, sy)
    res = R.method(f, 'opcode_filter', ln)
    if res is None:
        c.bad('rule answers', w, 'the line rule always raises')
        raise Undecided('')
    care = oblig_care(R, c, care)
    ans = answers(R, res, ln)
    c.holds(rule + ': the line stays, alone', w, lift1(lambda l: B(l.op == 'tup' and len(l.args[0]) == 1 and l.args[0][0] is ln), ans), care,
            'the answer is %s' % short(ans))
    want = dict(before, x=x2, y=y2)
    changed = FALSE
    for a in COORDS + ['command']:
        what = {'x': 'X', 'y': 'Y'}.get(a)
        c.same(rule + ': ' + (what + ' shifted exactly when absolute and untouched' if what else a + ' unchanged'), w, R.attr(ln, a), want[a], care)
    for a in ('x', 'y'):
        changed = bor(changed, differs(before[a], want[a]))
    text = expected_with(R, want, before['raw'], want['e'])
    got = R.attr(ln, 'raw')
    cmd = before['command']
    may = bor(band(isin(cmd, MOVES), mode), isin(cmd, ('G92',)))
    touched = may
    c.same(rule + ': text unchanged', w, got, before['raw'], band(care, bnot(touched)))
    c.same(rule + ': text unchanged or regenerated', w, got, ite(changed, lift1(lambda t: mk('either', t), text),
                                                              lift2(lambda a, b: mk('either', a, b), before['raw'], text)),
           band(care, touched), eq=lambda a, b: any(a is x or same_text(a, x) for x in b.args) if b.op == 'either' else None)
    return m2, sx2, sy2, care


def histories(c):
    tx, ty = poly_of(sym('tx', 'num')), poly_of(sym('ty', 'num'))
    for pre in (('G90',), ('G91',), (), ('G91', 'G90'), ('G90', 'G91')):
        R = c.run()
        cls = c.need(R, FLT)
        w = c.where(R, FLT + '.opcode_filter')
        f = R.call(cls, x=tx, y=ty)
        if f is None:
            c.bad('a filter can be made', w, 'the constructor always raises')
            return
        mode, sx, sy, care = FALSE, tx, ty, TRUE
        name = ' '.join(pre) or 'no positioning command'
        for k, cmd in enumerate(pre):
            ln = new_line(R, 'p%d' % k, command=C(cmd))
            mode, sx, sy, care = one_line(c, R, f, ln, mode, sx, sy, care, 'after %s: %s' % (' '.join(pre[:k]) or 'start', cmd), w)
        if len(pre) < 2:
            ln = new_line(R, 'setting', command=C('G92'))
            mode, sx, sy, care = one_line(c, R, f, ln, mode, sx, sy, care, 'after %s: position setting' % name, w)
            ln = new_line(R, 'line')
            mode, sx, sy, care = one_line(c, R, f, ln, mode, sx, sy, care, 'after %s and a position setting: any line' % name, w)
        else:
            ln = new_line(R, 'line')
            mode, sx, sy, care = one_line(c, R, f, ln, mode, sx, sy, care, 'after %s: any line' % name, w)
            ln = new_line(R, 'line2')
            mode, sx, sy, care = one_line(c, R, f, ln, mode, sx, sy, care, 'after %s: any second line' % name, w)
        c.seen(R)
        c.no_unsup(R)
        for g, e, s, m in c.raises(R):
            c.never('no failure', str(s), g, e)


def defaults(c):
    """an amount that is not requested is 0"""
    for kw in ({'x': NONE}, {'y': NONE}, {'x': NONE, 'y': NONE}, {}):
        R = c.run()
        cls = c.need(R, FLT)
        w = c.where(R, FLT + '.__init__')
        args = {'x': poly_of(sym('tx', 'num')), 'y': poly_of(sym('ty', 'num'))}
        args.update(kw)
        if not kw:
            args = {}
        f = R.call(cls, **args)
        R.method(f, 'opcode_filter', new_line(R, 'p', command=C('G90')))
        ln = new_line(R, 'line', command=C('G1'))
        b = snapshot(R, ln, ('x', 'y'))
        R.method(f, 'opcode_filter', ln)
        for a in ('x', 'y'):
            s = args.get(a, NONE)
            want = b[a] if s is NONE else lift1(lambda l: NONE if l is NONE else padd(l, s), b[a])
            c.same('amount not requested is 0', w, R.attr(ln, a), want)
        c.seen(R)


PARTS = [histories, defaults]
