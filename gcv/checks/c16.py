"""C16: the distance a point is moved by"""
from .stretch import *

EXPLANATION = ('The rule of the stretch filters is interpreted on two arbitrary lines followed by an arbitrary straight move, for arbitrary positive '
               'settings, with the wanted direction and size of the stretch of a point an arbitrary vector. On every path the square of the distance '
               'between the point that comes out and the one that went in, divided by the square of the maximum of the kind of loop begun by the last '
               'marker, is at most one; the E word is compared with the original one times one minus the distance.')


def bound(c):
    for cls in DIALECTS:
        c.attempt(cls, one, c, cls)


def distance(d2):
    return d2


def one(c, cls):
    s = Stretch(c, cls)
    if not s.ok:
        return
    R = s.R
    name = cls.split('.')[-1]
    for moves in (0, 1, 2):
        R.st = s.start
        s.base = State(dict(s.start.m), s.start.pc)
        sequence(c, s, name, moves)
    c.seen(R)
    c.no_unsup(R)


def sequence(c, s, name, moves):
    R = s.R
    R.st = State(dict(s.base.m), s.base.pc)
    marks = [new_line(R, 'm%d' % k, command=NONE) for k in range(2 if moves < 2 else 1)]
    olds = [new_line(R, 'p%d' % k, command=C('G%d' % (k % 2))) for k in range(moves)]
    ln = new_line(R, 'move', command=C('G1'))
    order = (olds[:1] + marks + olds[1:] if moves else marks) + [ln]
    raws = [R.attr(m, 'raw') for m in order]
    kind = loop_kind(raws)
    care = band(one_marker(raws), s.facts)
    before = snapshot(R, ln, COORDS)
    pos = {a: num(0) for a in 'xy'}     # of a fresh filter
    for l in olds + [ln]:
        for a in 'xy':
            pos[a] = lift2(lambda v, p: p if v is NONE else v, R.attr(l, a), pos[a])
    R.st.pc = care
    out = s.feed(order)[-1]
    if out is None:
        c.undecided('distance', s.where, '%s: no answer' % name)
        return
    care = oblig_care(R, c, care)
    for l in sorted(leaves(constrain(out, care)), key=lambda x: x.id):
        g = band(care, lift1(lambda x: B(x is l), out))
        if l is ln or l is NONE or g is FALSE:
            continue
        if l.op != 'ref':
            c.undecided('distance', s.where, '%s: answer %s' % (name, short(l)))
            continue
        for k in ('inner', 'outer', 'loop', None):
            gk = band(g, lift1(lambda x: B(x is (NONE if k is None else C(k))), kind))
            if gk is FALSE:
                continue
            if k is None:
                c.never('only points in loops are moved', s.where, gk, name)
                continue
            M = s.maximum(k)
            d = [lift2(lambda p, q: padd(p, q, -1) if p is not NONE else p, R.attr(l, a), pos[a]) for a in 'xy']
            judge(c, s, l, gk, d, M, before, '%s, %s, %d moves before' % (name, k, moves))


def judge(c, s, l, g, d, M, before, what):
    R = s.R
    w = s.where

    def unit(x, y):
        if x is NONE or y is NONE or x.op != 'p' or y.op != 'p':
            return NONE
        return padd(pmul(pdiv(x, M), pdiv(x, M)), pmul(pdiv(y, M), pdiv(y, M)))
    u = lift2(unit, d[0], d[1])
    over = lift1(lambda v: TRUE if v is NONE else lt_zero(clear(padd(num(1), v, -1))), u)
    c.never('no point is moved further than the maximum of its loop', w, squared(band(g, over)), what)
    # E
    e = R.attr(l, 'e')
    dist = lift2(lambda x, y: NONE if x is NONE or y is NONE else R.I.sqrt(padd(pmul(x, x), pmul(y, y))), d[0], d[1])
    want = lift2(lambda v, r: NONE if v is NONE else padd(v, pmul(v, r), -1) if r is not NONE else v, before['e'], dist)
    c.same('E is reduced by the distance', w, e, want, g, detail=what)


PARTS = [bound]
