"""C25: moves become an arc only if the whole run satisfies every criterion"""
from .arc import *

EXPLANATION = ('The arc optimizer is interpreted on sequences of arbitrary moves (any points, heights, feed rates, extrusion, commands) from a fresh filter. '
               'The condition under which an arc comes out in place of a run is extracted as a decision diagram and must imply every criterion for every '
               'move of exactly the run that disappears; where the implication is not found by rewriting, the extracted condition is evaluated on runs '
               'that break one criterion, and an arc coming out is a violation. Angles are kept as unknown steps between neighbouring points.')
import ast
NODE = ast.Pass(lineno=0)
RULE = 'an arc only stands for a run that satisfies every criterion'


def arbitrary(a, wide, comment=None):
    """any commands, heights and feed rates; one of the lines may be a comment"""
    mv = a.move

    def move(i, **k):
        if i == comment:
            return mv(i, command=NONE, **{w: NONE for w in 'xyef'})
        if wide:
            return mv(i, current_z=poly_of(N_('z%d' % i)), current_f=poly_of(N_('f%d' % i)), command=typed(sym('cmd%d' % i, 'str'), 'str?'))
        return mv(i)
    a.move = move


def nine(c):
    for rel_e in (FALSE, TRUE):
        c.attempt('9 moves', one, c, 9, rel_e, True, secs=300)


def comments(c):
    """a comment among the moves"""
    for j in range(9):
        c.attempt('a comment', one, c, 9, TRUE, False, j, secs=100)


def more(c):
    c.attempt('10 moves', one, c, 10, TRUE, False, secs=300)


def few(c):
    """up to eight moves never become an arc"""
    for n in range(1, 9):
        a = Arcs(c, rel_e=TRUE)
        if not a.ok:
            return
        arbitrary(a, True)
        out = a.run(n)
        for g, k, t, s in a.arcs(out):
            c.never('at least eight moves', a.where, g, 'an arc of %d moves' % (n - 1))
        c.ok('at least eight moves', a.where, '%d' % n)
        c.seen(a.R)


def one(c, n, rel_e, wide, comment=None):
    a = Arcs(c, rel_e=rel_e)
    if not a.ok:
        return
    arbitrary(a, wide, comment)
    out = a.run(n)
    name = '%d moves, %s extrusion' % (n, 'relative' if rel_e is TRUE else 'absolute')
    found = a.arcs(out)
    if comment is not None:
        name += ', line %d a comment' % comment
        c.ok('straight moves only', a.where, name)
    elif not found:
        c.undecided(RULE, a.where, '%s: no arc comes out' % name)
    envs = samples(a, n)
    for g, k, t, s in found:
        if s is None:
            c.undecided(RULE, a.where, '%s: the start of the run is not the line before the arc' % name)
            continue
        criteria(c, a, g, s, k - 1, envs, '%s, run of moves %d to %d' % (name, s + 1, k - 1))
    c.seen(a.R)
    c.no_unsup(a.R)


def samples(a, n):
    """runs that break one criterion"""
    out = []

    def add(what, pts, factors=None, **over):
        env = sample(a, pts, **over)
        if factors:
            moves_e(env, n, factors)
        out.append((what, a.centre_values(env)))
    none = {'e%d' % i: None for i in range(n)}
    for i in range(n):
        for off in (0.0228, 0.0234, 0.025, -0.03):
            p = points(n, step=0.7)
            p[i] = points(n, r=10.0 + off, step=0.7)[i]
            add('point %d off the circle' % i, p)
            add('point %d off the circle' % i, p, **none)
    for sgn in (1, -1):
        base = dict(step=0.4 * sgn)
        add("radius", points(n, r=203.0, step=0.06 * sgn))
        add('radius', points(n, r=250.0, step=0.05 * sgn))
        add('radius', points(n, r=400.0, step=0.1 * sgn), **none)
        for i in range(n):
            for off in (0.05, -0.05, 0.3):
                p = points(n, **base)
                q = points(n, r=10.0 + off, **base)
                p[i] = q[i]
                add('point %d off the circle' % i, p)
                add('point %d off the circle' % i, p, **none)
            for turn in (0.088, 0.1, 0.12, -0.12, 0.25):
                p = points(n, **base)
                p[i] = points(n, start=0.3 + turn, **base)[i]
                add('angle of point %d' % i, p)
                add('angle of point %d' % i, p, **none)
            for f in (0.7, 1.3, 0.0, -1.0):
                add('extrusion of move %d' % i, points(n, **base), {i: f})
            for f in (0.8, 1.2, 0.83, 1.18):
                add('extrusion of move %d' % i, points(n, **base), {i: f})
            add('height of move %d' % i, points(n, **base), **{'z%d' % i: 0.5})
            add('height of move %d' % i, points(n, **base), **dict(none, **{'z%d' % i: 0.5}))
            add('feed rate of move %d' % i, points(n, **base), **{'f%d' % i: 900.0})
            add('feed rate of move %d' % i, points(n, **base), **dict(none, **{'f%d' % i: 900.0}))
            add('extrusion of move %d' % i, points(n, **base), **{'e%d' % i: None})
            add('extrusion of move %d' % i, points(n, **base), **dict(none, **{'e%d' % i: 0.1}))
            for cmd in ('G2', 'G3', None):
                add('command of move %d' % i, points(n, **base), **{'cmd%d' % i: cmd})
                add('command of move %d' % i, points(n, **base), **dict(none, **{'cmd%d' % i: cmd}))
        add('no extrusion', points(n, **base), {i: 0.0 for i in range(n)})
        add('negative extrusion', points(n, **base), {i: -1.0 for i in range(n)})
    return Witnesses(out, lambda rnd, k: other(a, n, rnd, k))


def other(a, n, rnd, k):
    """an arc that breaks some criterion somewhere"""
    over, factors, what = {}, {}, []
    near = rnd.random() < 0.4
    r = rnd.uniform(195.0, 200.0) if near else rnd.choice((0.5, 2.0, 10.0, 60.0, 150.0)) * rnd.uniform(0.8, 1.2)
    step = rnd.choice((1, -1)) * (rnd.uniform(0.002, 0.006) if near else rnd.choice((0.05, 0.2, 0.4, 0.7)) * rnd.uniform(0.8, 1.05))
    start = rnd.choice((0.0, math.pi / 2, math.pi, rnd.uniform(-3, 3)))
    mid = rnd.choice(((0.0, 0.0), (-r * math.cos(start), -r * math.sin(start)), (30.0, -50.0)))
    pts = points(n, cx=mid[0], cy=mid[1], r=r, step=step, start=start)
    if rnd.random() < 0.3:
        over.update(('e%d' % i, None) for i in range(n))
    for i in range(n):
        over['z%d' % i], over['f%d' % i] = 0.2, 1800.0
    ways = ['tangent', 'tangent'] if near else []
    for way in rnd.sample(ways + ['radial', 'along', 'grow', 'e', 'e end', 'z', 'f', 'some e', 'cmd', 'angles'], 1 + (rnd.random() < 0.2)):
        i = rnd.choice((0, 1, n - 1, rnd.randrange(n)))
        what.append('%s %d' % (way, i))
        a_ = start + i * step
        out = rnd.choice((1, -1)) * 10 ** rnd.uniform(-2.2, 0.5)
        if way == 'radial':
            pts[i] = (pts[i][0] + out * math.cos(a_), pts[i][1] + out * math.sin(a_))
        elif way == 'tangent':
            # the run gets straight
            for m in range(rnd.choice((n - 1, n - 2, n - 3)), n):
                (x0, y0), (x1, y1) = pts[m - 2], pts[m - 1]
                pts[m] = (2 * x1 - x0, 2 * y1 - y0)
        elif way == 'along':
            b = a_ + step * rnd.choice((-0.5, -0.3, 0.2, 0.5))
            pts[i] = (mid[0] + r * math.cos(b), mid[1] + r * math.sin(b))
        elif way == 'grow':
            gr = out / n
            pts = [(mid[0] + (r + gr * m) * math.cos(start + m * step), mid[1] + (r + gr * m) * math.sin(start + m * step)) for m in range(n)]
        elif way == 'angles':
            b = start
            pts = []
            for m in range(n):
                pts.append((mid[0] + r * math.cos(b), mid[1] + r * math.sin(b)))
                b += step * (1 + rnd.choice((0.0, 0.6, -0.4)) * rnd.random())
        elif way == 'e':
            factors[i] = rnd.choice((0.0, -1.0, 0.8, 1.2, 0.83, 1.17, 2.0))
        elif way == 'e end':
            f = rnd.choice((0.8, 1.2, -1.0, 0.0))
            factors.update((m, f) for m in range(i, n))
        elif way == 'z':
            over['z%d' % i] = 0.2 + rnd.choice((0.001, 0.3, -0.2))
        elif way == 'f':
            over['f%d' % i] = rnd.choice((1799.0, 0.0, 900.0))
        elif way == 'some e':
            for m in range(n):
                if rnd.random() < 0.5:
                    over['e%d' % m] = None if rnd.random() < 0.7 else 0.0
        elif way == 'cmd':
            over['cmd%d' % i] = rnd.choice(('G2', 'G3', None, 'M1', 'G0', 'G92'))
    env = sample(a, pts, **over)
    moves_e(env, n, factors)
    return [(', '.join(what), a.centre_values(env))]


FORCED = {}


def forced(g):
    """comparisons that g settles"""
    if g not in FORCED:
        out = []
        for t in g.sup:
            if t.kind in ('lt0', 'eq0'):
                if band(g, lit(t)) is FALSE:
                    out.append((t, False))
                elif band(g, bnot(lit(t))) is FALSE:
                    out.append((t, True))
        FORCED[g] = out
    return FORCED[g]


def prove(g, bad):
    """can bad not happen under g?"""
    b = band(g, bad)
    if b is FALSE:
        return True
    def possible(lits):
        cube = band(g, *[lit(t) if v else bnot(lit(t)) for t, v in lits if t.kind not in ('lt0', 'eq0')])
        return cube is not FALSE and feasible(forced(cube) + list(lits), ())
    if not any(possible(lits) for lits, leaf in paths(bad, lambda l: l is not FALSE, 50)):
        return True
    if len(b.sup) > 30:
        return False
    return not any(leaf is not FALSE and feasible(lits, ()) for lits, leaf in paths(b, lambda l: l is not FALSE, 400))


def judge(c, a, g, rule, what, bads, envs):
    """one of the ways to write a breach must be impossible; (rule, what)"""
    for bad in bads:
        try:
            if prove(g, bad):
                c.ok(rule, a.where, what)
                return True
        except (Limit, Unsup):
            pass
    for name, env in envs:
        v = Values(env)
        try:
            if v.of(g) and all(v.of(b) for b in bads):
                c.bad(rule, a.where, '%s; for instance %s: %s' % (what, name, text_of(env)))
                return False
        except NoValue:
            continue
    return None


def text_of(env):
    return ', '.join('%s=%s' % (k.args[0], '%.4g' % v if isinstance(v, float) else v) for k, v in sorted(env.items(), key=lambda x: str(x[0].args[0]))
                     if not str(k.args[0]).startswith(('theta', 'step', 'x', 'y')))[:700]


def criteria(c, a, g, s, end, envs, what):
    R = a.R
    run = a.lines[s + 1:end + 1]
    pts = list(range(s, end + 1))
    n = len(run)

    def say(rule, bads, detail=''):
        r = judge(c, a, g, rule, what + detail, bads, envs)
        if r is None:
            c.undecided(rule, a.where, what + detail)
        return r
    if n < MIN:
        say('at least eight moves', [TRUE])
        return
    c.ok('at least eight moves', a.where, what)
    for i, l in enumerate(run):
        say('straight moves only', [bnot(isin(R.attr(l, 'command'), ('G0', 'G1')))], ': move %d' % (s + 1 + i))
    z0, f0 = R.attr(a.lines[s], 'current_z'), R.attr(run[0], 'current_f')
    e0 = is_none_d(R.attr(run[0], 'e'))
    for i, l in enumerate(run):
        say('one height', [bnot(eq_zero(padd(R.attr(l, 'current_z'), z0, -1)))], ': move %d' % (s + 1 + i))
        say('one feed rate', [bnot(eq_zero(padd(R.attr(l, 'current_f'), f0, -1)))], ': move %d' % (s + 1 + i))
        say('all extruding or none', [bnot(iff(is_none_d(R.attr(l, 'e')), e0))], ': move %d' % (s + 1 + i))
    # extrusion per length
    sq = lambda x: pmul(x, x)
    length = [R.I.sqrt(padd(sq(padd(a.xs[i], a.xs[i - 1], -1)), sq(padd(a.ys[i], a.ys[i - 1], -1)))) for i in pts[1:]]
    fil = [lift1(lambda l: num(0) if l is NONE else l, R.attr(a.lines[i], 'e')) if a.rel_e is TRUE else
           padd(R.attr(a.lines[i], 'current_e'), R.attr(a.lines[i - 1], 'current_e'), -1) for i in pts[1:]]
    ext = bnot(e0)
    add = lambda xs: liftn(lambda *ys: sum_up(ys), list(xs))
    flat = [constrain(x, band(ext, *[bnot(is_none_d(R.attr(l, 'e'))) for l in run])) for x in fil]
    if all(x.op == 'p' for x in flat):
        mean = pdiv(sum_up(flat), sum_up(length))
        say('extrusion is positive', [band(ext, lt_zero(padd(mean, num(Fraction(1, 10 ** 9)), -1))), band(ext, bnot(lt_zero(neg(mean)))), band(ext, bnot(lt_zero(neg(sum_up(flat)))))])
        for i, (e, d) in enumerate(zip(flat, length)):
            q = padd(pdiv(pdiv(e, d), mean), num(1), -1)
            lim = num(Fraction(15, 100))
            say('extrusion per length within 15 % of the mean', [band(ext, lt_zero(padd(lim, R.I.absolute(q), -1))),
                                                                   band(ext, bor(lt_zero(padd(lim, q, -1)), lt_zero(padd(lim, q))))], ': move %d' % (s + 1 + i))
    else:
        c.undecided('extrusion per length within 15 % of the mean', a.where, what)
    # the circle: one of those the filter made meets all criteria
    best = None
    for r, x, y in a.circles():
        fails = circle(a, g, pts, r, x, y, envs)
        if best is None or len(fails) < len(best):
            best = fails
        if not fails:
            break
    if best is None:
        c.undecided('the fitted circle', a.where, '%s: no circle with a radius and a centre' % what)
        return
    if not best:
        c.ok('the fitted circle', a.where, what)
        return
    for rule, bads, detail in best:
        say(rule, bads, detail)


def sum_up(xs):
    t = num(0)
    for x in xs:
        t = padd(t, x)
    return t


def circle(a, g, pts, r, x, y, envs):
    """the criteria of the circle that are not shown to hold"""
    R = a.R
    out = []

    def need(rule, bads, detail=''):
        for b in bads:
            try:
                if prove(g, b):
                    return
            except (Limit, Unsup):
                pass
        out.append((rule, bads, detail))
    need('radius at most 200 mm', [lt_zero(padd(num(200), r, -1))])
    lim = num(Fraction(15, 1000))
    for i in pts:
        dx, dy = padd(a.xs[i], x, -1), padd(a.ys[i], y, -1)
        cap = R.I.capped
        off = cap(padd(R.I.sqrt(cap(padd(cap(pmul(dx, dx)), cap(pmul(dy, dy))))), r, -1))
        need('no point further than 0.015 mm from the circle', [lt_zero(padd(lim, R.I.absolute(off), -1)), bor(lt_zero(padd(lim, off, -1)), lt_zero(padd(lim, off)))],
             ': point %d' % i)
    k = next((j for j, (cx, cy) in enumerate(a.centres) if same_centre(cx, x) and same_centre(cy, y)), None)
    if k is None:
        out.append(('step angles', [TRUE], ': the steps are not seen from the centre'))
        return out
    steps = [a.step(k, i) for i in pts[1:]]
    mean = pscale(sum_up(steps), Fraction(1, len(steps)))
    lim = pscale(PI, Fraction(5, 180))
    for i, d in zip(pts[1:], steps):
        need('no step angle exceeds the mean by more than 5 degrees', [lt_zero(padd(padd(lim, d, -1), mean))], ': step to point %d' % i)
    return out


def same_centre(c, x):
    return c is x or c is neg(x) or padd(c, x) is num(0)


def later(c):
    """an arc only comes out for lines that the criteria have just been found to hold for, however long it has been going on"""
    for kind in ('moves', 'M1 after 12', 'comment after 12', 'M1 after 25'):
        c.attempt(kind, long_run, c, kind, 30)


def long_run(c, kind, n):
    a = Arcs(c, rel_e=TRUE)
    if not a.ok:
        return
    R = a.R
    rule = 'an arc stands for lines the criteria hold for'
    if not a.known():
        c.undecided(rule, a.where, 'the names of the criteria or the queue are not the known ones')
        return
    calls = {}
    now = [0]

    def queue_valid(st):
        q = R.I.getattr(st, a.obj, 'queue', NODE)
        b = lit(alg.atom('true', sym('bad%d' % now[0], 'bool')))
        calls.setdefault(now[0], []).append((st.pc, lift1(lambda x: R.I.content(st, x), q), b))
        return b
    a.verdicts(queue_valid, lambda st: lit(alg.atom('true', sym('bad', 'bool'))))
    ls = []
    for i in range(n):
        cmd = C('G1')
        if kind.endswith(' %d' % i):
            cmd = C('M1') if 'M1' in kind else NONE
        ls.append(a.move(i, e=NONE, f=NONE, command=cmd, **{w + x: poly_of(N_(x)) for x in 'xy' for w in ('', 'current_')}))
    a.given = set(ls)
    out = []
    for i, l in enumerate(ls):
        now[0] = i
        out.append((l, a.feed(l)))
    worst = None
    for good_when in (False, True):         # whichever way the verdict is meant
        found = settled(c, a, rule, kind, ls, out, calls, good_when)
        if found is None:
            return
        worst = found if worst is None else min(worst, found, key=lambda f: sum(1 for g, w in f if g is not FALSE))
    for g, what in worst:
        c.never(rule, a.where, g, what)
    c.seen(R)


def settled(c, a, rule, kind, ls, out, calls, good_when):
    """[(condition under which an arc comes out though the last verdict is not the good one, run)]"""
    found = []
    for g, k, t, s in a.arcs(out):
        what = '%s, run of moves %s to %d' % (kind, s if s is None else s + 1, k - 1)
        if s is None:
            c.undecided(rule, a.where, what)
            return None
        want = mk('seq', tuple(p for p in seq(*ls[s:k]).args[0]))
        good = FALSE
        for pc, q, b in calls.get(k - 1, ()):
            good = bor(good, band(pc, lift1(lambda x: B(x is want), q), b if good_when else bnot(b)))
        found.append((band(g, bnot(good)), what))
    return found


PARTS = [few, nine, comments, later, more]
