"""C33: durations"""
from .c03 import *

EXPLANATION = ('Programs of one to six texts with arbitrary numbers (moves with and without feed rate, dwells, other lines) are read; the sum of the '
               'layer durations, as a decision diagram over the numbers, is compared with the time inside the program duration; each kind of line '
               'is put at every place of the programs and the sum compared with the sum without it: plus P/1000 for a dwell, unchanged for lines '
               'that are neither moves nor dwells, plus distance over feed rate for a move that keeps direction and feed rate.')


def layer_sum(R, g):
    def f(t):
        if t.op != 'tup':
            return t
        r = num(0)
        for l in t.args[0]:
            r = lift2(lambda a, b: padd(a, b) if a.op == 'p' and b.op == 'p' else mk('opaque', b), r, R.attr(l, 'duration'))
        return r
    return lift1(f, rows(R, R.attr(g, 'all_layers')))


def inner(t):
    """seconds inside a timedelta value"""
    if t.op == 'app' and t.args[0] == 'timedelta':
        t = t.args[1]
    if t.op == 'p':
        if is_num_const(t):
            return t
        m = t.args[0]
        if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1 and m[0][0][0][1] == 1:
            a = m[0][0][0][0]
            if a.op == 'app' and a.args[0] in ('int', 'floor', 'round', 'trunc') and isinstance(a.args[1], N) and a.args[1].op == 'p':
                return a.args[1]
    return t


def eq_time(a, b):
    if a.op != 'p' and 'datetime.timedelta.max' in repr(a):
        return True
    p = inner(a)
    if p is b:
        return True
    if p.op == 'p' and b.op == 'p':
        if is_num_const(p) and is_num_const(b):
            return int(num_val(b)) == num_val(p)
        return eq_zero(padd(p, b, -1)) is TRUE
    return None


def read(R, lines):
    """lines: [(shape, tag)]"""
    R.st = State()
    del R.I.obligs[:]
    g = R.call(GC, R.I.new_list(R.st, seq(*[text(s, t) for s, t in lines])))
    return g


PROGS = [['G1 X# F#'], ['G1 F# X#', 'G1 Z#'], ['G1 Z1 F600', 'G1 X1 E1', 'G1 Z2', 'G1 X# E2'], ['G1 Z0.2 F600', 'G1 X# E1', 'G1 Z0.4', 'G1 Y5 E2', 'G1 Z0.6', 'G1 X0'],
         ['G1 Z#'], ['G1 E#'], ['G91', 'G1 X1 F600', 'G1 Z0.2', 'G1 Z0.2'], ['G1 F600', 'G1 Z1', 'G1 Z2', 'G1 Z1', 'G1 X3 E1'], [';']]


def named(p, off=0):
    return [(s, '%d' % (i + off)) for i, s in enumerate(p)]


def total(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '._preprocess')
    for p in PROGS + [['G4 P#'], ['G4 P#', 'G1 Z#', 'G4 P#'], ['G1 Z# F600', 'G4 P#', 'G1 Z3', 'G4 P#', ';']]:
        g = read(R, named(p))
        c.same('layer durations add up to the program duration', w, R.attr(g, 'duration'), layer_sum(R, g), oblig_care(R, c, TRUE), eq=eq_time,
               detail=' / '.join(p))
    c.seen(R)
    c.no_unsup(R)


def other(c):
    """dwells add P/1000, other lines nothing"""
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '._preprocess')
    p_ms = pscale(poly_of(num_app('float', digits('nX.0'))), Fraction(1, 1000))
    for p in (PROGS[0], PROGS[2], PROGS[6], PROGS[7]):
        base = layer_sum(R, read(R, named(p)))
        for extra, want in (('G4 P#', p_ms), ('M104 S#', None), (';', None), ('M83', None), ('G28', None), ('G92 E#', None), ('T#', None), ('hello', None), ('G4', None)):
            for k in range(len(p) + 1):
                g = read(R, named(p[:k]) + [(extra, 'X')] + named(p[k:], k))
                rule = 'a dwell counts its P milliseconds' if want is not None else 'a line that neither moves nor dwells takes no time'
                if extra in ('M83', 'G92 E#', 'G28') and any('E' in q for q in p):
                    continue
                c.same(rule, w, layer_sum(R, g), add(base, want) if want is not None else base, oblig_care(R, c, TRUE),
                       detail='%s as line %d of %s' % (extra, k, ' / '.join(p)))
    c.seen(R)
    c.no_unsup(R)


def steady(c):
    """a further move in the same direction with the same feed rate takes distance over feed rate; G0 counts like G1"""
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '._preprocess')
    for letter in 'XY':
        for word in ('G1', 'G0'):
            p = [('G1 F# %s#' % letter, '0')]
            base = layer_sum(R, read(R, p))
            for more in ('', ' F#'):
                g = read(R, p + [('%s %s#%s' % (word, letter, more), '1')])
                got = layer_sum(R, g)
                f, a, b = [poly_of(num_app('float', digits(x))) for x in ('n0.0', 'n0.1', 'n1.0')]
                d = padd(b, a, -1)
                care = band(lt_zero(neg(f)), lt_zero(neg(a)), lt_zero(neg(d)))
                if more:
                    care = band(care, eq_zero(padd(poly_of(num_app('float', digits('n1.1'))), f, -1)))
                dist = d
                want = add(base, lift1(lambda l: pdiv(pscale(l, 60), f), dist))
                c.same('a move at constant feed rate takes distance over feed rate', w, got, want, band(care, oblig_care(R, c, TRUE)), detail='%s %s%s' % (word, letter, more),
                       eq=lambda x, y: True if x.op == 'p' and y.op == 'p' and eq_zero(padd(subst(x, {}), y, -1)) is TRUE else None)
    for p in PROGS[:4]:
        a = layer_sum(R, read(R, named(p)))
        b = layer_sum(R, read(R, named([s.replace('G1', 'G0') for s in p])))
        c.same('G0 moves take the time of G1 moves', w, b, a, oblig_care(R, c, TRUE), detail=' / '.join(p))
    c.seen(R)
    c.no_unsup(R)


PARTS = [total, other, steady]
