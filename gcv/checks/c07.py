"""C07: reading words"""
from .common import *

LETTERS = 'XYZEFIJ'
SHAPES = ['%s', '-%s', '+%s', '%s.%s', '-%s.%s', '.%s', '-.%s', '%s.']
BARE = ['', '-', '.', '+', '-.']
EXPLANATION = ('Line texts built from constant letters and arbitrary runs of decimal digits (every number shape: sign, point, leading or '
               'trailing point; upper and lower case; with and without blanks, line number, comment, other words) are read by an abstract '
               'interpretation of the parser: the regular expression found in the source is applied to the text symbolically (it is checked '
               'not to tell digits apart, so one representative decides all numbers) and every coordinate of the line is compared with the '
               'number written under its letter times the unit factor, for every command number and unit state.')


def number(shape, name):
    parts, k = [], 0
    for j, p in enumerate(shape.split('%s')):
        if j:
            parts.append(digits('%s%d' % (name, k)))
            k += 1
        if p:
            parts.append(C(p))
    return strcat(parts) if parts else C('')


def program(R, **kw):
    kw.setdefault('lines', R.I.new_list(R.st, seq()))
    return R.obj('g', GC, **kw)


def read_append(R, t, imp):
    """the line appended to a program in an arbitrary state"""
    g = R.obj('g', GC, imperial=imp)
    return R.method(g, 'append', t)


def read_parse(R, t):
    g = R.call(GC, R.I.new_list(R.st, seq(t)))
    if g is None:
        return None
    q = R.I.content(R.st, R.attr(g, 'lines'))
    return lift1(lambda l: l.args[0][0].args[0] if l.op == 'seq' and len(l.args[0]) == 1 and l.args[0][0].op == 'e' else mk('opaque', l), q)


def texts():
    """[(name, text, command, {letter: number text})]"""
    out = []
    d = digits('d')
    g = strcat([C('G'), d])

    def t(*parts):
        return strcat([C(p) if isinstance(p, str) else p for p in parts])
    for l in LETTERS:
        for s in SHAPES:
            v = number(s, 'v')
            out.append(('%s with a number like %s' % (l, s.replace('%s', '0')), t('G', d, ' ', l, v), g, {l: v}))
        for s in BARE:
            out.append(('%s with no number (%r)' % (l, s), t('G', d, ' ', l, s, ' '), g, {}))
        v = number('%s', 'v')
        out.append(('%s in lower case, no blanks' % l, t('g', d, l.lower(), v), g, {l: v}))
        out.append(('%s after a line number' % l, t('N', digits('n'), ' G', d, ' ', l, v), g, {l: v}))
        out.append(('%s before a comment' % l, t('  G', d, ' ', l, v, ' ; ', ' '.join(k + '7' for k in LETTERS if k != l)), g, {l: v}))
        out.append(('%s after a comment in parentheses' % l, t('G', d, ' (', ' '.join(k + '7' for k in LETTERS if k != l), ') ', l, v), g, {l: v}))
        for m in LETTERS:
            if m != l:
                u = number('-%s.%s', 'u')
                out.append(('%s then %s' % (l, m), t('G', d, ' ', l, v, ' ', m, u), g, {l: v, m: u}))
                out.append(('%s without a number then %s' % (l, m), t('G', d, ' ', l, ' ', m, u), g, {m: u}))
        for k in 'SPRQ':
            out.append(('%s after a %s word' % (l, k), t('G', d, ' ', k, digits('s'), ' ', l, v), g, {l: v}))
    vs = {l: number('%s.%s', 'v' + l) for l in LETTERS}
    for order in (LETTERS, LETTERS[::-1], 'EJYFZIX'):
        for sep in (' ', ''):
            parts = ['G', d]
            for l in order:
                parts += [sep + l, vs[l]]
            out.append(('all words, order %s' % order, t(*parts), g, dict(vs)))
    for c in ('M', 'T', 'm'):
        parts = [c, d]
        for l in LETTERS:
            parts += [' ' + l, vs[l]]
        out.append(('words of a %s command' % c, t(*parts), t(c.upper(), d), {}))
    out.append(('comment only', t('; G1 X1 Y2 Z3 E4 F5 I6 J7'), NONE, {}))
    out.append(('comment in parentheses only', t('(G1 X1 Y2 Z3 E4 F5 I6 J7)'), NONE, {}))
    out.append(('text without any word', t('%%%'), None, {}))
    return out


def words(c):
    R = c.run()
    c.need(R, GC)
    w1, w2 = c.where(R, GC + '.append'), c.where(R, GC + '.prepare')
    imp0 = typed(sym('inches', 'bool'), 'bool')
    for name, t, cmd, vs in texts():
        for how in ('appended', 'parsed'):
            R.st = State()
            del R.I.obligs[:]
            w = w1 if how == 'appended' else w2
            ln = read_append(R, t, imp0) if how == 'appended' else read_parse(R, t)
            if ln is None or any(l.op != 'ref' for l in leaves(ln)):
                c.bad('the line is read (%s)' % how, w, '%s: no line, %s' % (name, short(ln) if ln is not None else 'always raises'))
                continue
            care = oblig_care(R, c, TRUE)
            imp = imp0 if how == 'appended' else FALSE
            dd = digits('d')
            care = band(care, *[bnot(str_test('streq', dd, k)) for k in ('20', '21')])
            if cmd is not None:
                c.same('command (%s)' % how, w, lift1(lambda l: R.attr(l, 'command'), ln), cmd, care, detail=name)
            for l in LETTERS:
                v = vs.get(l)
                want = NONE
                if v is not None:
                    fv = num_app('float', v)
                    want = ite(imp, pscale(fv, Fraction(254, 10)), fv)
                got = lift1(lambda x: R.attr(x, l.lower()), ln)
                c.same('%s (%s)' % ('the word sets its coordinate' if v is not None else 'a coordinate without a value is unset', how), w,
                       got, want, care, detail='%s: %s' % (name, l))
    c.seen(R)
    c.no_unsup(R)


def units(c):
    """G20 and G21 select the unit of what follows"""
    R = c.run()
    c.need(R, GC)
    v = number('%s.%s', 'v')
    fv = num_app('float', v)
    for seqn, k in ((('G20',), Fraction(254, 10)), (('G21',), 1), (('G20', 'G21'), 1), (('G21', 'G20'), Fraction(254, 10)), (('G20', 'M104 S5', 'G90', 'G28', 'G92 E0'), Fraction(254, 10))):
        for how in ('appended', 'parsed'):
            R.st = State()
            del R.I.obligs[:]
            w = c.where(R, GC + ('.append' if how == 'appended' else '.prepare'))
            last = strcat([C('G1 X'), v])
            if how == 'appended':
                g = R.obj('g', GC, imperial=typed(sym('inches', 'bool'), 'bool'))
                for s in seqn:
                    R.method(g, 'append', C(s))
                ln = R.method(g, 'append', last)
            else:
                g = R.call(GC, R.I.new_list(R.st, seq(*([C(s) for s in seqn] + [last]))))
                ln = None
                if g is not None:
                    q = R.I.content(R.st, R.attr(g, 'lines'))
                    ln = lift1(lambda l: l.args[0][-1].args[0] if l.op == 'seq' and l.args[0] and l.args[0][-1].op == 'e' else mk('opaque', l), q)
            if ln is None or any(l.op != 'ref' for l in leaves(ln)):
                c.bad('the line is read (%s)' % how, w, 'after %s: no line' % ' '.join(seqn))
                continue
            c.same('unit (%s)' % how, w, lift1(lambda l: R.attr(l, 'x'), ln), pscale(fv, k), oblig_care(R, c, TRUE), detail='after %s' % ' '.join(seqn))
    c.seen(R)
    c.no_unsup(R)


PARTS = [words, units]
