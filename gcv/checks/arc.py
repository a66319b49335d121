"""runs of the arc optimizer on given lines"""
from .. import alg
from .common import *
from ..numeric import Values, NoValue
import math
import random
import time

PI = num(Fraction(math.pi))
CLS = 'gcodeutils.filter.arc_optimizer.GCodeArcOptimizerFilter'
MIN = 8


def N_(name):
    return sym(name, 'num')


class Arcs(object):
    """a fresh filter, fed with arbitrary moves; seen from whatever centre the code works with, the points turn by arbitrary angles below a
    quarter of half a circle (other angles are left out), which may pass the direction where angles start anew"""

    ready = None
    last_f = None       # a move with a feed rate of its own

    def __init__(self, c, rel=FALSE, rel_e=FALSE, wrap=None):
        self.c = c
        R = self.R = c.run()
        c.need(R, GC)
        self.ok = False
        R.I.cap = 30
        R.I.pi = PI
        R.I.keep_abs = True
        alg.TIES[0] = False
        k = R.get(CLS)
        if k is None or k.op != 'cls':
            c.undecided('analysis', CLS, 'no such class')
            return
        self.obj = R.call(k)
        if self.obj is None or self.obj.op != 'ref':
            c.undecided('analysis', CLS, 'not built')
            return
        self.where = c.where(R, CLS + '.opcode_filter')
        self.rel, self.rel_e = rel, rel_e
        self.lines, self.xs, self.ys = [], [], []
        self.centres = []
        self.wrap = wrap
        self.facts = TRUE
        R.I.b_cmath_phase = lambda st, args, kw, n: lift1(lambda x: self.angle(*x.args) if x.op == 'cx' else num_app('phase', x), args[0])
        R.I.b_math_atan2 = lambda st, args, kw, n: lift2(self.angle, args[1], args[0])
        rnd = R.I.b_round
        R.I.b_round = lambda st, args, kw, n: args[0] if len(args) > 1 and is_num_const(args[1]) and num_val(args[1]) >= 6 else rnd(st, args, kw, n)
        self.ok = True

    # -- angles

    def angle(self, x, y):
        for i, (a, b) in enumerate(zip(self.xs, self.ys)):
            c = (padd(x, a, -1), padd(y, b, -1))
            if self.level(c):
                if c not in self.centres:
                    self.centres.append(c)
                return self.theta(self.centres.index(c), i)
        return num_app('atan2', y, x)

    def level(self, c):
        """every point weighs the same in it, but for points not looked at"""
        for p, vs in zip(c, (self.xs, self.ys)):
            m = dict(p.args[0])
            w = [m.get(v.args[0][0][0], 0) for v in vs]
            while w and w[-1] == 0:
                w.pop()
            if len(set(w)) > 1 and len(set(x for x in w if x)) > 1 or any(m_ for m_ in m if len(m_) == 1 and m_[0][1] != 1 and m_[0][0] in (v.args[0][0][0][0][0] for v in vs)):
                return False
            if w and (max(w) > Fraction(1, 2) or min(w) < Fraction(-1, 2)):
                return False
        return True

    def step(self, k, i):
        """angle between point i-1 and point i seen from centre k"""
        d = poly_of(N_('step%d.%d' % (k, i)))
        lim = pscale(PI, Fraction(1, 4))
        g = band(lt_zero(padd(d, lim, -1)), lt_zero(padd(neg(d), lim, -1)))
        self.facts = band(self.facts, g)
        return d

    def steps(self, n):
        """angles are bounded from the start"""
        for k in range(3):
            for i in range(1, n):
                self.step(k, i)

    def theta(self, k, i):
        t = poly_of(N_('theta%d' % k))
        for j in range(1, i + 1):
            t = padd(t, self.step(k, j))
        if self.wrap is not None and i >= self.wrap[0]:
            t = padd(t, pscale(PI, 2 * self.wrap[1]), -1)
        return t

    # -- lines

    def move(self, i, **kw):
        x, y = poly_of(N_('px%d' % i)), poly_of(N_('py%d' % i))
        self.xs.append(x)
        self.ys.append(y)
        a = {'command': C('G1'), 'current_x': x, 'current_y': y, 'current_z': poly_of(N_('Z')), 'current_f': poly_of(N_('F')),
             'current_e': poly_of(N_('ce%d' % i)), 'relative': self.rel, 'relative_e': self.rel_e, 'is_move': TRUE}
        for ax, p in (('x', x), ('y', y)):
            v = padd(p, poly_of(N_('o' + ax)), -1)
            a[ax] = lift1(lambda l: l if l is NONE else v if self.rel is FALSE else l, nullable(N_('%s%d' % (ax, i)), 'num'))
        a['e'] = lift1(lambda l: l if l is NONE else a['current_e'] if self.rel_e is FALSE else l, nullable(N_('e%d' % i), 'num'))
        a.update({'i': NONE, 'j': NONE})
        if i == self.last_f:
            a['current_f'] = poly_of(N_('flast'))
        a['f'] = lift1(lambda l: l if l is NONE else a['current_f'], nullable(N_('fw%d' % i), 'num'))
        a.update(kw)
        l = new_line(self.R, 'l%d' % i, **a)
        self.lines.append(l)
        return l

    def feed(self, l):
        """diagram of the tuples of lines that come out"""
        r = self.R.method(self.obj, 'opcode_filter', l)
        return answers(self.R, r, l) if r is not None else None

    def made(self, l):
        """is the line one the filter made?"""
        return l.op == 'ref' and l not in self.given

    def run(self, n, end=True, **kw):
        """n moves and a command that is none; [(line, answers)]"""
        ls = [self.move(i, **kw) for i in range(n)]
        self.steps(n)
        self.R.st.pc = self.facts
        if end:
            ls.append(new_line(self.R, 'end', command=C('M1'), e=NONE, **{'current_' + x: self.R.attr(ls[-1], 'current_' + x) for x in 'xyzef'}))
        self.given = set(ls)
        out = []
        for l in ls:
            out.append((l, self.feed(l)))
        return out

    def known(self):
        """are the criteria and the queue where this version has them?"""
        R = self.R
        if not all(R.get(CLS + '.' + m) is not None for m in ('queue_valid', 'get_circle', 'get_distances')) or \
                not all(R.attr(self.obj, m) is not None for m in ('queue', 'valid_circle')) or R.attr(self.obj, 'queue').op != 'ref':
            return False
        q = R.attr(self.obj, 'queue')
        st = R.st
        ok = True
        for m in ('queue_valid', 'get_circle'):         # (verdict, circle) is what they answer
            R.st = st.copy()
            o = {w: num(1) for w in ('x', 'y', 'e', 'f') + tuple('current_' + w for w in 'xyzef')}
            R.st.m[(q.args[0], '$seq')] = seq(*[new_line(R, 'same%d' % i, command=C('G1'), relative=FALSE, relative_e=FALSE, **o) for i in range(9)])
            r = R.method(self.obj, m)
            ok = ok and r is not None and all(x.op == 'tup' and len(x.args[0]) == 2 and all(b in (TRUE, FALSE) for b in leaves(x.args[0][0])) for x in leaves(r))
        R.st = st
        del R.I.obligs[:]
        return ok

    def verdicts(self, queue_valid, get_circle):
        """the criteria give any verdict"""
        R = self.R
        N = lambda x: poly_of(N_(x))
        pt = R.call(R.get('gcodeutils.filter.arc_optimizer.Point'), N('cx'), N('cy'))
        st = R.call(R.get('gcodeutils.filter.arc_optimizer.Point'), N('sx'), N('sy'))
        circle = R.call(R.get('gcodeutils.filter.arc_optimizer.Circle'), N('r'), pt, N('turn'), st, st)
        for m, fn in (('queue_valid', queue_valid), ('get_circle', get_circle)):
            R.I.intrinsics[CLS + '.' + m] = lambda I, s, args, kw, node, fn=fn: mk('tup', (fn(s), circle))

    # -- arcs that come out

    def arcs(self, out):
        """[(guard, index of the last line given, tuple of lines, index of the start)] of the answers holding new lines"""
        found = []
        for k, (l, ans) in enumerate(out):
            if ans is None:
                continue
            for t in sorted(leaves(ans), key=lambda x: x.id):
                if t.op != 'tup':
                    self.c.undecided('analysis', self.where, 'answer %s' % short(t))
                    continue
                g = lift1(lambda x: B(x is t), ans)
                if not any(self.made(x) for e in t.args[0] for x in leaves(e)):
                    continue
                flat = lift1(lambda x: x, liftn(lambda *xs: mk('tup', tuple(xs)), list(t.args[0])))
                flat = constrain(flat, g)
                for u in sorted(leaves(flat), key=lambda x: x.id):
                    gu = band(g, lift1(lambda x: B(x is u), flat))
                    if gu is FALSE:
                        continue
                    new = [i for i, x in enumerate(u.args[0]) if self.made(x)]
                    if not new or new[0] == 0 or u.args[0][new[0] - 1] not in self.lines:
                        found.append((gu, k, u.args[0], None))
                        continue
                    found.append((gu, k, u.args[0], self.lines.index(u.args[0][new[0] - 1])))
        return found

    def centre_values(self, env):
        """angles of the points seen from the centres, put into env"""
        v = Values(env)
        for k, (cx, cy) in enumerate(self.centres):
            try:
                x, y = -v.number(cx), -v.number(cy)      # (x - px, y - py) is kept
            except NoValue:
                continue
            n = len(self.xs)
            ths = [math.atan2(env[N_('py%d' % i)] - y, env[N_('px%d' % i)] - x) for i in range(n)]
            env[N_('theta%d' % k)] = ths[0]
            for i in range(1, n):
                d = ths[i] - ths[i - 1]
                env[N_('step%d.%d' % (k, i))] = d - 2 * math.pi * round(d / (2 * math.pi))
        return env

    def circles(self):
        """[(radius, x, y)] of the circles the filter made"""
        R = self.R
        out = []
        for k, v in list(R.st.m.items()):
            if len(k) == 2 and k[1] == 'radius' and k[0].op in ('obj', 'app'):
                cen = R.I.read(R.st, k[0], 'center')
                for r in leaves(v):
                    for q in leaves(cen):
                        if q.op == 'ref' and r.op == 'p':
                            for x in leaves(R.attr(q, 'x')):
                                for y in leaves(R.attr(q, 'y')):
                                    if x.op == 'p' and y.op == 'p' and (r, x, y) not in out:
                                        out.append((r, x, y))
        return out


def short(t):
    return show(t)[:80]


def points(n, cx=10.0, cy=20.0, r=10.0, start=0.3, step=0.4):
    return [(cx + r * math.cos(start + i * step), cy + r * math.sin(start + i * step)) for i in range(n)]


def sample(a, pts, per=0.05, first_e=3.0, **over):
    """values for all inputs: points, filament in proportion to length, and the angles seen from the centre"""
    env = {}

    def put(name, v):
        env[N_(name)] = v
    put('Z', 0.2)
    put('F', 1800.0)
    put('ox', 7.0)
    put('oy', -3.0)
    e = first_e
    for i, (x, y) in enumerate(pts):
        d = math.hypot(x - pts[i - 1][0], y - pts[i - 1][1]) * per if i else 0.0
        e += d
        for name, v in (('px', x), ('py', y), ('x', x - pts[i - 1][0] if i else x), ('y', y - pts[i - 1][1] if i else y), ('ce', e), ('e', d), ('z', 0.2), ('f', 1800.0)):
            put('%s%d' % (name, i), v)
        env[sym('cmd%d' % i, 'str')] = 'G1'
    for name, v in over.items():
        if name.startswith('cmd'):
            env[sym(name, 'str')] = v
        else:
            put(name, v)
    return env


def moves_e(env, n, factors):
    """E of the moves times factors"""
    e = env[N_('ce0')]
    for i in range(1, n):
        d = env[N_('e%d' % i)]
        if d is not None:
            d *= factors.get(i, 1.0)
            env[N_('e%d' % i)] = d
            e += d
        env[N_('ce%d' % i)] = e
    return env


class Witnesses(object):
    """values for the inputs: those given and, if none of them serves, more of them as long as there is time"""

    budget = 90.0

    def __init__(self, first, make, limit=1500):
        self.have = list(first)
        self.make, self.limit, self.n = make, limit, 0
        self.rnd = random.Random(11)

    def __iter__(self):
        i = 0
        while True:
            if i < len(self.have):
                yield self.have[i]
                i += 1
                continue
            if self.n >= self.limit or Witnesses.budget <= 0:
                return
            t = time.time()
            self.n += 1
            try:
                self.have += self.make(self.rnd, self.n)
            except (NoValue, ValueError, ZeroDivisionError, OverflowError):
                pass
            Witnesses.budget -= time.time() - t
