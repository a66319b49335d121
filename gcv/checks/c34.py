"""C34: bounding box"""
from .machine import *

EXPLANATION = ('Programs of one to three texts with arbitrary numbers (absolute and relative moves, extruding or not, position settings, homing) are '
               'read and the reported limits compared, as decision diagrams over the numbers, with minimum and maximum over the end positions of a '
               'reference machine: of the extruding moves if the filament length is positive, else of all moves. Width, depth and height are '
               'compared with the differences of the reported limits.')


def least(items, sign):
    """diagram: least (sign 1) or greatest (-1) of the values whose condition holds; NONE when there is none"""
    r = NONE
    for cond, v in items:
        def f(a, b):
            if a is NONE:
                return b
            d = padd(b, a, -1)
            return ite(lt_zero(d if sign > 0 else neg(d)), b, a)
        r = ite(cond, lift2(f, r, v), r)
    return r


def T(letter, n, words='', tag='', bare=''):
    return Text('%s%s %s' % (letter, n, words), letter, words, bare, num_=n, tag=tag)


def progs():
    t = lambda *a, **k: T(*a, **k)
    return [
        [t('G', '1', 'X', '1')], [t('G', '1', 'Y', '1')], [t('G', '0', 'XY', '1')], [t('G', '1', 'XYE', '1')], [t('G', '1', 'E', '1')], [t('G', '28')], [t('M', '83')],
        [t('G', '1', 'X', '1'), t('G', '1', 'X', '2')], [t('G', '1', 'Y', '1'), t('G', '0', 'Y', '2')],
        [t('G', '1', 'XE', '1'), t('G', '1', 'XE', '2')], [t('G', '1', 'YE', '1'), t('G', '1', 'Y', '2')],
        [t('G', '1', 'X', '1'), t('G', '1', 'XE', '2')], [t('G', '1', 'XE', '1'), t('G', '1', 'YE', '2')],
        [t('G', '92', 'X', '1'), t('G', '1', 'XE', '2')], [t('G', '92', 'Y', '1'), t('G', '1', 'Y', '2')],
        [t('G', '91'), t('G', '1', 'XE', '1'), t('G', '1', 'XE', '2')], [t('G', '91'), t('G', '1', 'Y', '1'), t('G', '1', 'Y', '2')],
        [t('M', '83'), t('G', '1', 'XE', '1'), t('G', '1', 'YE', '2')], [t('G', '1', 'XE', '1'), t('G', '28'), t('G', '1', 'XE', '2')],
        [t('M', '83'), t('G', '3', 'XE', '1'), t('G', '2', 'XE', '2')], [t('M', '83'), t('G', '1', 'XE', '1'), t('G', '1', 'E', '2'), t('G', '1', 'XE', '3')],
        [t('G', '1', 'X', '1'), t('G', '1', 'X', '2'), t('G', '1', 'X', '3')], [t('G', '1', 'X', '1'), t('G', '1', 'E', '2'), t('G', '1', 'YE', '3')],
        [t('G', '20'), t('G', '1', 'XE', '1')],
        [t('G', '1', 'Z', '1'), t('G', '1', 'XE', '2'), t('G', '1', 'Z', '3')],
    ]


def box(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '._preprocess')
    for ts in progs():
        R.st = State()
        del R.I.obligs[:]
        what = '; '.join(t.name for t in ts)
        g = R.call(GC, R.I.new_list(R.st, seq(*[t.text for t in ts])))
        s = concrete_start()
        moves = []
        for t in ts:
            s, rec = step(s, t)
            ext = lift1(lambda l: FALSE if l is NONE else lt_zero(neg(l)), rec['advance'])
            moves.append((rec['move'], ext, rec))
        printed = lift1(lambda l: lt_zero(neg(l)), s['max_e'])
        care = oblig_care(R, c, TRUE)
        got = {a: R.attr(g, a) for a in ('xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax', 'width', 'depth', 'height')}
        for a in 'xy':
            for name, sign in (('min', 1), ('max', -1)):
                ex = least([(band(m, e), r[a]) for m, e, r in moves], sign)
                al = least([(m, r[a]) for m, e, r in moves], sign)
                want = lift1(lambda l: num(0) if l is NONE else l, ite(printed, ex, al))
                c.same('%s%s covers the end points exactly' % (a, name), w, got[a + name], want, care, detail=what)
        for k, a in (('width', 'x'), ('depth', 'y'), ('height', 'z')):
            c.same('%s is the difference of the limits' % k, w, got[k], add(got[a + 'max'], got[a + 'min'], -1), care, detail=what)
    c.seen(R)
    c.no_unsup(R)


PARTS = [box]
