"""C19: iteration around a loop"""
from .stretch import *

EXPLANATION = ('The forward and backward iterators each stretch filter uses are interpreted on layers of up to five arbitrary lines, from every start line and from just outside the layer, '
               'following every path of every call until no path goes on: each answer is a straight move of the layer that names X or Y, a call ends in no other way than with an answer or '
               'StopIteration, no more calls are answered than there are lines, and the answers are those of a walk that moves by one line or jumps to the loop limits. The functions '
               'that ask the iterators are interpreted on layers of arbitrary lines: the end of a loop never leaves them as an exception.')
ON, OFF = 'stretch-extrusion-on', 'stretch-extrusion-off'
ATTR = {1: 'line_forward_iterator', -1: 'line_backward_iterator'}
SIZES = (1, 2, 3, 4, 5)
UNROLL = 24


def setup(c, cls):
    """run with an object of the filter class, its iterator classes"""
    R = c.run()
    R.I.unroll = UNROLL
    c.need(R, GC)
    k = R.get(cls)
    if k is None or k.op != 'cls':
        c.undecided('analysis', cls, 'no such class')
        return None
    o = R.call(k)
    if o is None or o.op != 'ref':
        c.undecided('analysis', cls, 'not built')
        return None
    its = {}
    for d, a in ATTR.items():
        v = R.attr(o, a)
        if v.op != 'cls':
            c.undecided('analysis', cls, 'no %s' % a)
            return None
        its[d] = v
    return R, o, its


def iterators(c):
    for cls in DIALECTS:
        for d in ATTR:
            for n in SIZES:
                for s in range(-1, n + 1):
                    c.attempt('%s %s %d from %d' % (cls, ATTR[d], n, s), asked, c, cls, d, n, s)


def asked(c, cls, d, n, s):
    x = setup(c, cls)
    if x is None:
        return
    R, o, its = x
    it = its[d]
    what = '%s from line %d of %d' % (it.args[0].name, s, n)
    ls = [new_line(R, 'l%d' % i) for i in range(n)]
    f, _ = R.I.cls_attr(None, it.args[0], 'get_next')
    w = c.where(R, f.args[0].qual) if f is not None and f.op == 'fn' else cls
    raws = [R.attr(l, 'raw') for l in ls]
    moves = [band(isin(R.attr(l, 'command'), ('G0', 'G1')), bor(bnot(is_none_d(R.attr(l, 'x'))), bnot(is_none_d(R.attr(l, 'y'))))) for l in ls]
    obj = R.call(it, num(s), R.I.new_list(R.st, seq(*ls)))
    if obj is None:
        c.never('an iterator is made', w, TRUE, what)
        return
    care0 = TRUE
    if cls == DIALECTS[2] and d > 0 and n:
        care0 = bnot(holds(ON, raws[0]))     # a layer begins with a change of height
    want = Walk(cls, d, raws, moves).answers(s, n + 1)
    seen_at = 0
    for k in range(n + 2):
        pend0 = len(R.I.pend)
        before = R.st.pc
        r = R.method(obj, 'get_next')
        for pc, exc, val, st in R.I.pend[pend0:]:
            if exc != 'StopIteration':
                c.never('a call answers or reports the end', w, pc, '%s, call %d: %s' % (what, k + 1, exc))
        bad = c.raises(R)
        for g, exc, site, msg in bad[seen_at:]:
            c.never('a call answers or reports the end', str(site), g, '%s, call %d: %s %s' % (what, k + 1, exc, msg))
        seen_at = len(bad)
        ended = bor(*([pc for pc, exc, val, st in R.I.pend[pend0:]] or [FALSE]))
        pc = TRUE if r is not None else FALSE
        pc = R.st.pc if r is not None else FALSE
        got = NONE
        if r is not None:
            for t in leaves(constrain(r, pc)):
                g = band(pc, lift1(lambda z: B(z is t), r))
                if t not in ls:
                    c.never('an answer is a move of the layer', w, g, '%s, call %d: %s' % (what, k + 1, short(t)))
                else:
                    c.never('an answer is a straight move that names X or Y', w, band(g, bnot(moves[ls.index(t)])), '%s, call %d: line %d' % (what, k + 1, ls.index(t)))
            got = lift1(lambda z: num(ls.index(z)) if z in ls else C('?'), r)
        got = ite(pc, got, NONE)
        exp = lift1(lambda q: num(q.args[0][k]) if k < len(q.args[0]) else NONE, want)
        # asked again only after an answer
        c.same('the walk moves by one line or jumps to a loop limit', w, got, exp, band(care0, before), detail='%s, call %d' % (what, k + 1))
        if k >= n:
            c.never('asking ends', w, pc, '%s: answered %d times' % (what, k + 1))
        if pc is FALSE or r is None:
            break
    c.seen(R)
    c.no_unsup(R)


class Walk(object):
    """lines answered, by the marker layout"""

    def __init__(self, cls, d, raws, moves):
        self.kind = DIALECTS.index(cls)
        self.d, self.raws, self.moves, self.n = d, raws, moves, len(raws)
        self.memo = {}

    def has(self, m, i):
        return holds(m, self.raws[i])

    def answers(self, pos, limit):
        """diagram of tuples of answered line numbers"""
        return self.call(pos, frozenset(), (), limit)

    def first(self, marker, idx, go):
        """go(i) at the first of the lines idx holding the marker, else the end"""
        v = go(None)
        for i in reversed(idx):
            v = ite(self.has(marker, i), go(i), v)
        return v

    def jump(self, pos, go):
        before, behind = list(range(pos - 1, -1, -1)), list(range(pos + 1, self.n))
        k = self.kind
        if self.d > 0:
            m, idx, off = ((LOOP, before, 1), (LOOP, before, 0), (ON, before, 1))[k]
        else:
            m, idx, off = ((OFF, behind, -2), (STOP, behind, -1), (OFF, behind, -2))[k]
        return self.first(m, [i for i in idx if 0 <= i < self.n], lambda i: go(None if i is None else i + off))

    def call(self, pos, seen, out, limit):
        """a call begins at a line"""
        if len(out) >= limit:
            return mk('tup', out)
        key = (pos, seen, out)
        if key in self.memo:
            return self.memo[key]

        def go(p):
            return mk('tup', out) if p is None else self.step(p, seen, out, limit)
        k, d, n = self.kind, self.d, self.n
        stay = None
        if d > 0:
            at = self.has(STOP, pos) if k == 1 and 0 <= pos < n else FALSE
        elif k == 2:
            at = B(pos < 1)
        else:
            at = TRUE if pos < 0 else self.has(LOOP, pos + 1) if pos + 1 < n else FALSE
        v = FALSE if at is FALSE else self.jump(pos, go)
        r = v if at is TRUE else go(pos) if at is FALSE else ite(at, v, go(pos))
        self.memo[key] = r
        return r

    def step(self, pos, seen, out, limit):
        if not 0 <= pos < self.n or pos in seen:
            return mk('tup', out)
        seen = seen | {pos}
        on = ite(self.moves[pos], self.call(pos + self.d, seen, out + (pos,), limit), self.step(pos + self.d, seen, out, limit))
        if self.kind == 1:
            return on
        return ite(self.has(OFF, pos), self.jump(pos, lambda p: mk('tup', out) if p is None else self.step(p, seen, out, limit)), on)


def askers(c):
    for cls in DIALECTS:
        for d in ATTR:
            for name in HELPERS:
                for n in (1, 2):
                    c.attempt('%s %s' % (cls, name), asker, c, cls, d, name, n)


def asker(c, cls, d, name, n):
    x = setup(c, cls)
    if x is None:
        return
    R, o, its = x
    R.I.cap = 12
    k = R.I.class_of(o.args[0])
    f, _ = R.I.cls_attr(None, k, name)
    if f is None or f.op != 'fn':
        c.undecided('the end of a loop stays inside', cls, 'no %s' % name)
        return
    w = c.where(R, f.args[0].qual)
    what = '%s with %s, %d lines' % (name, its[d].args[0].name, n)
    R.method(o, 'set_edge_width', num('0.4'))
    ls = [new_line(R, 'l%d' % i) for i in range(n)]
    for s in (range(n) if n > 1 else (0,)):
        it = R.call(its[d], num(s), R.I.new_list(R.st, seq(*ls)))
        loc = mk('cx', poly_of(sym('px', 'num')), poly_of(sym('py', 'num')))
        pend0 = len(R.I.pend)
        st = R.st
        if name == HELPERS[0]:
            R.method(o, name, loc, it)
        else:
            R.method(o, name, mk('cx', poly_of(sym('sx', 'num')), poly_of(sym('sy', 'num'))), it, loc)
        n_bad = 0
        for pc, exc, val, s2 in R.I.pend[pend0:]:
            n_bad += 1
            c.never('the end of a loop stays inside', w, pc, '%s from %d: %s' % (what, s, exc))
        if not n_bad:
            c.ok('the end of a loop stays inside', w, '%s from %d' % (what, s))
        for g, exc, site, msg in c.raises(R):
            if exc in ('StopIteration', 'IndexError', 'AttributeError', 'TypeError', 'KeyError'):
                c.never('the end of a loop stays inside', str(site), g, '%s from %d: %s %s' % (what, s, exc, msg))
        R.st = st
        del R.I.obligs[:]
    c.seen(R)


PARTS = [iterators, askers]
