"""C06: appending equals parsing"""
from .c04 import *

EXPLANATION = ('The machine state after parsing two or three lines of text (one of every kind that changes the state, then an arbitrary command '
               'with arbitrary numbers) is compared, as decision diagrams, with the state after appending the same lines one at a time, from an '
               'arbitrary common start state and from a new program; single appends from an arbitrary state carry every piece of state over.')
KEYS6 = KEYS + ['relative_e', 'total_e', 'max_e', 'logical_e']


def both(c, R, ts, w, fresh):
    res = []
    for how in ('append', 'prepare'):
        R.st = State()
        del R.I.obligs[:]
        if fresh and how == 'prepare':
            g = R.call(GC, R.I.new_list(R.st, seq(*[t.text for t in ts])))
            ok = g is not None
        else:
            g = R.call(GC) if fresh else make(R, start_state())
            ok = feed(R, g, how, ts) is not None
        what = '; then '.join(t.name for t in ts)
        if not ok:
            c.bad('the lines are read', w, what)
            return
        res.append((final(R, g), oblig_care(R, c, TRUE)))
    (a, ca), (b, cb) = res
    for k in KEYS6:
        c.same('%s after appending as after parsing' % LABEL[k], w, a[k], b[k], band(ca, cb), detail=what)


def pairs(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.append')
    for t in firsts():
        for u in texts('2', True):
            both(c, R, [t, u], w, False)
            both(c, R, [t, u], w, True)
    c.seen(R)
    c.no_unsup(R)


def triples(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.append')
    second = [t for t in firsts() if t.name in ('G91', 'M83', 'G92 XYZE', 'G28 X', 'G20')]
    for t in second:
        for u in second:
            if t is not u:
                for v in (Text('G1 X', 'G', 'X', num_='1', tag='3'), Text('G1 E', 'G', 'E', num_='1', tag='3')):
                    both(c, R, [t, u, v], w, True)
    c.seen(R)
    c.no_unsup(R)


PARTS = [pairs, triples]
