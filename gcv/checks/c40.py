"""C40: where the stretch of a point comes from"""
import random
from .stretch import *
from ..ex import Raise
from ..numeric import Values, NoValue

EXPLANATION = ('The vector a point of a loop is stretched by is extracted as a term over the moves around it: (walk) the pull of one side for loops of up to four further '
               'moves with arbitrary points, ending anywhere, against the point reached after the documented distance; (across) the limit across the direction of a '
               'neighbouring point; (sum) the point that comes out for given pulls of both sides, and the places in the layer the walks begin at. A difference of terms '
               'is a violation if there are numbers for which it shows (they are the witness), and undecided otherwise.')
ITERS = ('line_forward_iterator', 'line_backward_iterator')


def P(name):
    return poly_of(sym(name, 'num'))


def cx(a, b):
    return mk('cx', a, b)


def csub(a, b):
    return cx(padd(a.args[0], b.args[0], -1), padd(a.args[1], b.args[1], -1))


def cadd(a, b):
    return cx(padd(a.args[0], b.args[0]), padd(a.args[1], b.args[1]))


def cscale(a, k):
    return cx(pmul(a.args[0], k), pmul(a.args[1], k))


def cdot(a, b):
    return padd(pmul(a.args[0], b.args[0]), pmul(a.args[1], b.args[1]))


def clen(R, a):
    return R.I.sqrt(cdot(a, a))


def lift_len(f, n):
    """n may be a diagram (|x| of one number)"""
    return lift1(f, n)


def parts_of(v):
    def part(k):
        return lift1(lambda x: x.args[k] if x.op == 'cx' else x if x.op == 'p' and k == 0 else num(0) if x.op == 'p' else mk('opaque', x), v)
    return part(0), part(1)


def differ(c, rule, where, got, want, care, what, fixed=()):
    """got, want: pairs of diagrams of numbers"""
    if all(constrain(a, care) is constrain(b, care) for a, b in zip(got, want)):
        c.ok(rule, where, what)
        return
    names = sorted(set().union(*[syms(x) for x in list(got) + list(want) + [care]]), key=lambda x: x.id)
    rnd = random.Random(5)
    seen = 0
    for k in range(1200):
        env = {}
        grid = k % 4
        for x in names:
            if x.op != 'sym':
                continue
            if len(x.args) > 1 and x.args[1] in ('num', 'int'):
                env[x] = float(rnd.randint(-4, 4)) if grid == 0 else rnd.uniform(-3, 3) if grid == 1 else rnd.uniform(-12, 12) if grid == 2 else \
                    rnd.choice([rnd.uniform(-.01, .01), rnd.uniform(-.1, .1), rnd.uniform(-4, 4)])
                if 'over_edge' in str(x.args[0]) or str(x.args[0]) in POSITIVE:
                    env[x] = rnd.uniform(.1, 9)
        try:
            ev = Values(env)
            if ev.of(care) is not True:
                continue
            a, b = [ev.of(x) for x in got], [ev.of(x) for x in want]
        except (NoValue, ValueError, ZeroDivisionError, OverflowError, TypeError, KeyError):
            continue
        seen += 1
        if any(type(x) is not type(y) and not (isinstance(x, (int, float)) and isinstance(y, (int, float))) for x, y in zip(a, b)):
            continue
        if any(isinstance(x, (int, float)) and abs(x - y) > 1e-6 * (1 + abs(y)) for x, y in zip(a, b)):
            c.bad(rule, where, '%s: (%s) instead of (%s) for %s' % (what, ', '.join('%.4g' % x for x in a), ', '.join('%.4g' % x for x in b),
                                                                    ', '.join('%s=%.4g' % (x.args[0], v) for x, v in sorted(env.items(), key=lambda y: str(y[0].args[0])))[:300]))
            return
    c.undecided(rule, where, '%s: %s differs in form, not for %d points tried' % (what, short(got[0]), seen))


POSITIVE = ('D', 'width', 'stretch_strength', 'M', 'strength')


class Walk(object):
    """an iterator over given lines"""

    def __init__(self, s, lines):
        R = self.R = s.R
        k = R.I.getattr(R.st, s.obj, ITERS[0], None)
        self.term = mk('sym', 'the walk', 'obj', str(k.args[0].name) if False else LINE)
        self.ref = None
        self.lines = lines

    def next(self, I, st, args, kw, n):
        key = (args[0].args[0], '$pos')
        k = st.m.get(key, num(0))
        if k.op != 'p' or not is_num_const(k):
            return None
        k = int(num_val(k))
        if k >= len(self.lines):
            I.raise_(st, TRUE, 'StopIteration', n, 'end')
            raise Raise()
        st.m[key] = num(k + 1)
        return self.lines[k]


def iterator(c, s, lines):
    """an iterator object whose answers are the given lines"""
    R = s.R
    k = R.I.getattr(R.st, s.obj, ITERS[0], None)
    if k is None or k.op != 'cls':
        c.undecided('analysis', s.where, 'no class of iterators')
        return None
    f, _ = R.I.cls_attr(None, k.args[0], 'get_next')
    if f is None or f.op != 'fn':
        c.undecided('analysis', s.where, 'no get_next')
        return None
    it = R.call(k, num(1), R.I.new_list(R.st, seq(*lines)))
    R.I.intrinsics[f.args[0].qual] = Walk(s, lines).next
    R.st.m[(it.args[0], '$pos')] = num(0)
    return it


def method_of(c, s, name):
    f, _ = s.R.I.cls_attr(None, s.cls, name)
    if f is None or f.op != 'fn':
        c.undecided('analysis', s.where, 'no %s' % name)
        return False
    s.R.I.intrinsics.pop(f.args[0].qual, None)
    return True


def moves(R, n):
    return [R.obj('w%d' % k, LINE, command=C('G1'), x=P('x%d' % k), y=P('y%d' % k)) for k in range(n)], [cx(P('x%d' % k), P('y%d' % k)) for k in range(n)]


def pull(R, at, pts, D):
    """reference: pull of one side (diagram)"""
    def go(k, last, total):
        if k == len(pts):
            if k == 0:
                return cx(num(0), num(0))
            d = csub(at, last)
            return lift1(lambda l: ite(lt_zero(neg(l)), cx(pdiv(d.args[0], l), pdiv(d.args[1], l)), cx(num(0), num(0))), clen(R, d))
        p = pts[k]

        def step(l):
            t = padd(total, l)
            r = pdiv(padd(D, total, -1), l)
            q = cadd(cscale(p, r), cscale(last, padd(num(1), r, -1)))
            d = csub(at, q)
            return ite(lt_zero(padd(t, D, -1)), go(k + 1, p, t), cx(pdiv(d.args[0], D), pdiv(d.args[1], D)))
        return lift1(step, clen(R, csub(last, p)))
    return go(0, at, num(0))


def walk(c):
    rule = 'the pull of one side is that of the point at the documented distance along the loop'
    for cls in DIALECTS:
        s = Stretch(c, cls)
        if not s.ok or not method_of(c, s, 'get_relative_stretch'):
            continue
        R = s.R
        w = c.where(R, BASE + '.get_relative_stretch')
        R.I.unroll = 8
        base = R.st
        for n in range(5):
            if c.attempt('%s, %d further moves' % (cls.split('.')[-1], n), side, c, s, base, cls, n, w, rule, secs=40) is not True:
                break
        R.I.intrinsics.clear()
        c.seen(R)


def side(c, s, base, cls, n, w, rule):
    R = s.R
    R.st = State(dict(base.m), s.facts)
    lines, pts = moves(R, n)
    it = iterator(c, s, lines)
    if it is None:
        return None
    at = cx(P('px'), P('py'))
    D = pmul(s.width, s.set['stretch_from_distance_over_edge_width'])
    care = band(s.facts, lt_zero(neg(s.set['stretch_from_distance_over_edge_width'])))
    R.st.pc = care
    k = len(R.I.obligs)
    got = R.method(s.obj, 'get_relative_stretch', at, it)
    del R.I.obligs[k:]
    if got is None:
        c.undecided(rule, w, 'no value')
        return True
    differ(c, rule, w, parts_of(got), parts_of(pull(R, at, pts, D)), care, '%s, %d further moves' % (cls.split('.')[-1], n))
    return True


def limited(R, v, at, pts, X):
    if not pts:
        return v
    d = csub(at, pts[0])

    def f(l):
        third = pscale(X, Fraction(1, 3))
        n = cx(pdiv(d.args[0], l), pdiv(d.args[1], l))
        par = cscale(n, cdot(n, v))
        m = cx(n.args[1], neg(n.args[0]))
        cross = cscale(m, cdot(m, v))
        part = pdiv(padd(X, l, -1), padd(X, third, -1))
        return ite(lt_zero(padd(third, l, -1)), ite(lt_zero(padd(X, l, -1)), par, cadd(par, cscale(cross, part))), v)
    return lift1(f, clen(R, d))


def across(c):
    rule = 'the part across the direction of a neighbour is reduced with its distance'
    for cls in DIALECTS:
        s = Stretch(c, cls)
        if not s.ok or not method_of(c, s, 'get_cross_limited_stretch'):
            continue
        R = s.R
        w = c.where(R, BASE + '.get_cross_limited_stretch')
        R.I.unroll = 8
        base = R.st
        for n in range(2):
            R.st = State(dict(base.m), s.facts)
            lines, pts = moves(R, n)
            it = iterator(c, s, lines)
            if it is None:
                return
            at, v = cx(P('px'), P('py')), cx(P('vx'), P('vy'))
            ratio = s.set['cross_limit_distance_over_edge_width']
            care = band(s.facts, lt_zero(neg(ratio)))
            R.st.pc = care
            k = len(R.I.obligs)
            got = R.method(s.obj, 'get_cross_limited_stretch', v, it, at)
            del R.I.obligs[k:]
            if got is None:
                c.undecided(rule, w, 'no value')
                continue
            differ(c, rule, w, parts_of(got), parts_of(limited(R, v, at, pts, pmul(s.width, ratio))), care, '%s, %d neighbours' % (cls.split('.')[-1], n))
        R.I.intrinsics.clear()
        c.seen(R)


class Pulls(Stretch):
    """pulls of both sides are two arbitrary vectors; limits leave them as they are and are recorded"""

    def side(self, I, st, x):
        if x.op != 'ref':
            return None
        k = I.class_of(x.args[0])
        for n, a in enumerate(ITERS):
            v = I.getattr(st, self.obj, a, None)
            if v.op == 'cls' and str(v.args[0]) == str(k):
                return n
        return None

    def arbitrary(self, I, st, args, kw, n):
        its = [x for x in list(args[1:]) + list(kw.values()) if isinstance(x, N) and x.op == 'ref']
        vs = [x for x in list(args[1:]) + list(kw.values()) if isinstance(x, N) and x.op != 'ref']
        side = self.side(I, st, its[0]) if len(its) == 1 else None
        start = st.m.get((its[0].args[0], 'line_index')) if side is not None else None
        if len(args) + len(kw) == 3:            # pull
            self.log.append(('pull', side, start, vs[0] if vs else None))
            return cx(P('a%s' % side), P('b%s' % side)) if side is not None else None
        self.log.append(('limit', side, start, None))
        return args[1] if len(args) > 1 else None


def total(c):
    rule = 'a point is moved by the maximum of its loop times the limited sum of both pulls'
    for cls in DIALECTS:
        s = Pulls(c, cls)
        if not s.ok:
            continue
        R = s.R
        name = cls.split('.')[-1]
        R.I.unroll = 8
        base = R.st
        for kind, text in (('inner', INNER), ('outer', OUTER), ('loop', LOOP)):
            for k in (1, 3):
                R.st = State(dict(base.m), s.facts)
                s.log = []
                mark = R.obj('mark', LINE, raw=C(';' + text), command=C(''))
                ln = R.obj('move', LINE, command=C('G1'), x=P('px'), y=P('py'), raw=C('G1'))
                others = [R.obj('o%d' % j, LINE, command=C('G1'), x=P('ox%d' % j), y=P('oy%d' % j), raw=C('G1')) for j in range(4)]
                s.layer([mark] + others[:k - 1] + [ln] + others[k - 1:])
                R.st.m[(s.obj.args[0], 'line_number_in_layer')] = num(0)
                R.method(s.obj, 'parse_line', mark)
                R.st.m[(s.obj.args[0], 'line_number_in_layer')] = num(k)
                n = len(R.I.obligs)
                out = R.method(s.obj, 'parse_line', ln)
                del R.I.obligs[n:]
                if out is None or out.op != 'ref':
                    c.undecided(rule, s.where, '%s: no single line' % name)
                    continue
                pulls = [x for x in s.log if x[0] == 'pull']
                limits = [x for x in s.log if x[0] == 'limit']
                if any(x[1] is None or x[2] is None for x in s.log) or not s.log:
                    c.undecided(rule, s.where, '%s: walks are not known' % name)
                    continue
                for what, l in (('pulls', pulls), ('limits', limits)):
                    got = sorted((x[1], x[2].id) for x in l)
                    want = sorted([(0, num(k + 1).id), (1, num(k - 1).id)])
                    if got == want:
                        c.ok('one walk each way, from the neighbouring lines', s.where, '%s: %s' % (name, what))
                    else:
                        c.bad('one walk each way, from the neighbouring lines', s.where, '%s: %s at line %d start at %s' % (
                            name, what, k, ', '.join('%s %s' % (('forward', 'backward')[x[1]], short(x[2])) for x in l)))
                M = s.maximum(kind)
                v = cx(pscale(padd(P('a0'), P('a1')), Fraction(4, 5)), pscale(padd(P('b0'), P('b1')), Fraction(4, 5)))

                def move(l):
                    return ite(lt_zero(padd(num(1), l, -1)), cx(pdiv(pmul(v.args[0], M), l), pdiv(pmul(v.args[1], M), l)), cscale(v, M))
                by = lift1(move, clen(R, v))
                want = parts_of(lift1(lambda d: cadd(cx(P('px'), P('py')), d), by))
                differ(c, rule, s.where, (R.attr(out, 'x'), R.attr(out, 'y')), want, s.facts, '%s, %s' % (name, kind))
        R.I.intrinsics.clear()
        c.seen(R)


PARTS = [walk, across, total]
