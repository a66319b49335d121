"""C26: the arc says where the run ends, where its centre is, which way it turns, how fast and how much to extrude"""
import re
from .arc import *
from .c25 import circle, sum_up

EXPLANATION = ('The arc optimizer is interpreted on sequences of arbitrary moves in absolute and relative positioning and extrusion, with runs that do and do '
               'not pass the direction where angles start anew. Where an arc comes out, each word of the text of the new line is compared, as a term over '
               'the moves of the run, with what the property asks for: the run\'s last point, a centre that meets the criteria for all points, the turning '
               'direction, the feed rate and the extrusion scaled from chords to arcs. Where the terms differ in form, they are evaluated on exact arcs and a '
               'difference is a violation.')
TOL = 6e-4
WORD = re.compile(r'([A-Za-z])\s*$')


def words(raw):
    """(command, {letter: value}) of the text of a line; None if not understood"""
    parts = raw.args[0] if raw.op == 'cat' else (raw,)
    out, letter, cmd, note = {}, None, None, False
    for p in parts:
        if p.op == 'c' and isinstance(p.args[1], str):
            s = p.args[1].split(';')[0]
            if letter is not None and s and s[0] not in ' \t':
                return None
            letter = None
            for w in s.split():
                if cmd is None:
                    cmd = w
                elif len(w) == 1 and w.isalpha():
                    letter = w
                else:
                    try:
                        out[w[0]] = num(Fraction(w[1:]))
                    except ValueError:
                        return None
            if s and s[-1] in ' \t':
                letter = None
            if ';' in p.args[1]:
                return cmd, out
        elif p.op == 'app' and p.args[0] in ('fmt', 'str'):
            if letter is None or letter in out:
                return None
            out[letter] = p.args[-1]
        else:
            return None
    return cmd, out


def near(got, want, digits=3):
    if got is want:
        return True
    if got.op == 'p' and want.op == 'p':
        for k in range(digits, 10):
            if got is round_(want, num(k)):
                return True
        return padd(got, want, -1) is num(0)
    return False


def exact(a, n):
    """runs on exact arcs with the values they must give"""
    out = []
    for sgn in (1, -1):
        for r, step, start in ((10.0, 0.4, 0.3), (25.0, 0.15, -2.0), (4.0, 0.7, 1.0)):
            for kind in ('plain', 'travel', 'no feed rate', 'few words', 'rates', 'first off', 'last off', 'last travel off'):
                over = {'flast': 3000.0 if 'last' in kind else 1800.0}
                if kind in ('travel', 'no feed rate', 'last travel off'):
                    over.update(('e%d' % i, None) for i in range(n))
                if kind == 'no feed rate':
                    over['F'] = 0.0
                if kind == 'few words':
                    over.update(('%s%d' % (w, i), None) for w in 'xy' for i in range(n) if i % 3)
                pts = points(n, r=r, step=step * sgn, start=start)
                if kind == 'first off':
                    pts[0] = (pts[0][0] + 1.0, pts[0][1] + 2.0)
                if 'last' in kind:
                    pts[-1] = (pts[-1][0] + 1.0, pts[-1][1] + 2.0)
                over.update(('fw%d' % i, None) for i in range(n))
                env = sample(a, pts, **over)
                if kind == 'rates':
                    moves_e(env, n, {i: 1.0 + 0.05 * (i % 2) for i in range(n)})
                out.append((kind, a.centre_values(env), step * sgn))
    return Witnesses(out, lambda rnd, k: other(a, n, rnd, k))


def other(a, n, rnd, k):
    """an exact arc somewhere"""
    r = rnd.choice((0.2, 0.4, 0.9, 3.0, 12.0, 60.0, 150.0, 199.0)) * rnd.uniform(0.8, 1.0)
    step = rnd.choice((0.02, 0.1, 0.2, 0.4, 0.7)) * rnd.uniform(0.5, 1.05) * rnd.choice((1, -1))
    if abs(r * step) < 0.02:
        return []
    start = rnd.choice((0.0, math.pi / 2, math.pi, -math.pi / 2, rnd.uniform(-3, 3))) + rnd.choice((0, 0, 1e-3, -1e-3, step))
    mid = (rnd.choice((0.0, r, -r, 3.0, -40.0, 120.0)), rnd.choice((0.0, r, -r, 7.0, -25.0, 90.0)))
    pts = points(n, cx=mid[0], cy=mid[1], r=r, step=step, start=start)
    over = {'flast': rnd.choice((1800.0, 3000.0)), 'ox': rnd.choice((0.0, 5.0, -80.0)), 'oy': rnd.choice((0.0, -6.0, 70.0))}
    if rnd.random() < 0.3:
        over.update(('e%d' % i, None) for i in range(n))
    if rnd.random() < 0.3:
        over.update(('%s%d' % (w, i), None) for w in 'xy' for i in range(n) if rnd.random() < 0.5)
    if rnd.random() < 0.4:
        for i in rnd.choice(((0,), (n - 1,), (0, n - 1))):
            pts[i] = (pts[i][0] + rnd.choice((0.7, -1.5, 2.0)), pts[i][1] + rnd.choice((0.7, -1.5, 2.0)))
    over.update(('fw%d' % i, None if rnd.random() < 0.8 else 1800.0) for i in range(n))
    env = sample(a, pts, per=rnd.choice((0.03, 0.2)), first_e=rnd.choice((0.0, 3.0, 500.0)), **over)
    return [('centre %.4g %.4g, radius %.4g, step %.4g, start %.4g' % (mid + (r, step, start)), a.centre_values(env), step)]


def one(c, n, rel=FALSE, rel_e=FALSE, wrap=None):
    a = Arcs(c, rel=rel, rel_e=rel_e, wrap=wrap)
    if not a.ok:
        return
    a.last_f = n - 1 if n > 9 else None
    out = a.run(n)
    found = a.arcs(out)
    name = '%d moves, %s positioning, %s extrusion%s' % (n, 'relative' if rel is TRUE else 'absolute', 'relative' if rel_e is TRUE else 'absolute',
                                                         '' if wrap is None else ', angles start anew at point %d' % wrap[0])
    if not found:
        c.undecided('arc', a.where, '%s: no arc comes out' % name)
    envs = exact(a, n)
    for g, k, t, s in found:
        if s is None:
            c.undecided('arc', a.where, '%s: the start of the run is not the line before the arc' % name)
            continue
        after(c, a, g, s, k - 1, t, envs, '%s, run of moves %d to %d' % (name, s + 1, k - 1))
    c.seen(a.R)
    c.no_unsup(a.R)


def after(c, a, g, s, end, t, envs, what):
    R = a.R
    new = [x for x in t if a.made(x)]
    for i, l in enumerate(new):
        raws = constrain(R.attr(l, 'raw'), g)
        cmds, vals = {}, {}
        for raw in sorted(leaves(raws), key=lambda x: x.id):
            gg = lift1(lambda x: B(x is raw), raws)
            w = words(raw) if raw.op in ('cat', 'c') else None
            if w is None:
                c.undecided('words of the new line', a.where, '%s: %s' % (what, short(raw)))
                return
            cmds[w[0]] = bor(cmds.get(w[0], FALSE), gg)
            for n in LETTERS + ''.join(sorted(w[1])):
                if n not in LETTERS:
                    c.undecided('words of the new line', a.where, '%s: %s' % (what, n))
                v = vals.setdefault(n, {})
                v[w[1].get(n)] = bor(v.get(w[1].get(n), FALSE), gg)
        for cmd, cg in sorted(cmds.items()):
            if i == 0 and cmd in ('G2', 'G3'):
                direction(c, a, g, cg, s, end, cmd, envs, what)
            elif i == 0 or cmd != 'G92':
                if possible(band(g, cg), envs):
                    c.bad('an arc', a.where, '%s: %s' % (what, cmd))
                else:
                    c.undecided('an arc', a.where, '%s: %s' % (what, cmd))
        every = [(n, w, gg) for n in LETTERS for w, gg in vals.get(n, {}).items()]
        for n, w, gg in every:
            gg = band(g, gg)
            if gg is FALSE:
                continue
            if i == 0:
                ARC[n](c, a, gg, s, end, n, w, envs, what)
            else:
                position(c, a, gg, s, end, n, w, envs, what)
        if i == 0:
            centre(c, a, g, s, end, vals, envs, what)


LETTERS = 'XYZIJEF'


def compare(c, a, g, rule, what, got, wants, value, envs, digits=3, tol=TOL, signed=()):
    """got is one of the terms wanted (up to rounding for the text), or not far from the value on exact arcs; some only hold for one direction"""
    for w in wants:
        if near(got, w, digits):
            c.ok(rule, a.where, what)
            return
    some = any(near(got, w, digits) for w in signed)
    for name, env, step in envs:
        v = Values(env)
        try:
            if not v.of(g):
                continue
            x = v.of(got)
        except NoValue:
            continue
        y = value(env, step)
        if y is not None and abs(x - y) > tol * max(1.0, abs(y) if digits > 3 else 1.0):
            c.bad(rule, a.where, '%s: %.6g instead of %.6g on an exact arc (%s)' % (what, x, y, name))
            return
    if some:
        c.ok(rule, a.where, what)
    else:
        c.undecided(rule, a.where, '%s: %s' % (what, short(got)))


def direction(c, a, g, cg, s, end, cmd, envs, what):
    rule = 'G3 exactly if the run turns counter-clockwise'
    side = 1 if cmd == 'G2' else -1
    turn = [lt_zero(neg(pscale(a.step(k, i), side))) for k in range(len(a.centres)) for i in range(s + 1, end + 1)]
    if band(cg, *turn) is FALSE or against(cg, turn, a.facts) or against(band(g, cg), turn, a.facts):
        c.ok(rule, a.where, '%s: %s' % (what, cmd))
    elif any(st * side > 0 and true(band(g, cg), env) for n, env, st in envs):
        c.bad(rule, a.where, '%s: %s for a run that turns %s' % (what, cmd, 'counter-clockwise' if side > 0 else 'clockwise'))
    else:
        c.undecided(rule, a.where, '%s: %s' % (what, cmd))


def against(g, turn, facts):
    """can g not hold together with the signs of the steps (and their bounds)?"""
    known = []
    for d in list(turn) + [facts]:
        for ls, leaf in paths(d, lambda l: l is TRUE, 1):
            known += list(ls)
    if len(g.sup) > 30:
        return False
    return not any(feasible(list(ls) + known, ()) for ls, leaf in paths(g, lambda l: l is TRUE, 100))


def end_point(c, a, g, s, end, n, w, envs, what):
    rule = 'ends at the last point'
    ax = n.lower()
    ps = a.xs if n == 'X' else a.ys
    val = lambda env, n: env[N_(n)]
    if a.rel is TRUE:
        want = padd(ps[end], ps[s], -1)
        value = lambda env, st: val(env, 'p%s%d' % (ax, end)) - val(env, 'p%s%d' % (ax, s))
        care = g
    else:
        want = padd(ps[end], poly_of(N_('o' + ax)), -1)
        value = lambda env, st: val(env, 'p%s%d' % (ax, end)) - val(env, 'o' + ax)
        # when no move names the axis the program's origin is not known from the run
        care = band(g, bor(*[bnot(is_none_d(a.R.attr(l, ax))) for l in a.lines[s + 1:end + 1]]))
    if care is FALSE:
        return
    if w is None:
        if possible(care, envs):
            c.bad(rule, a.where, '%s: no %s' % (what, n))
        else:
            c.undecided(rule, a.where, '%s: no %s' % (what, n))
        return
    compare(c, a, care, rule, '%s: %s' % (what, n), w, [want], value, envs)


def height(c, a, g, s, end, n, w, envs, what):
    """the height stays"""
    if w is not None:
        c.undecided('ends at the last point', a.where, '%s: Z %s' % (what, short(w)))


def nothing(c, a, g, s, end, n, w, envs, what):
    pass


def centre(c, a, g, s, end, vals, envs, what):
    rule = 'centre relative to the first point'
    pts = list(range(s, end + 1))
    many = any(len(vals.get(n, {None: 0})) != 1 for n in 'IJ')
    i, j = [list(vals.get(n, {None: 0}))[0] or num(0) for n in 'IJ']
    for r, x, y in a.circles() if not many else ():
        if near(i, padd(x, a.xs[s], -1)) and near(j, padd(y, a.ys[s], -1)):
            if not circle(a, g, pts, r, x, y, []):
                c.ok(rule, a.where, what)
                return
    for wi, gi in vals.get('I', {None: TRUE}).items():
        for wj, gj in vals.get('J', {None: TRUE}).items():
            gg = band(g, gi, gj)
            if gg is FALSE:
                continue
            for name, env, step in envs:
                v = Values(env)
                try:
                    if not v.of(gg):
                        continue
                    mid = [env[N_('p%s%d' % (ax, s))] + (v.of(w) if w is not None else 0.0) for ax, w in (('x', wi), ('y', wj))]
                except NoValue:
                    continue
                far = [math.hypot(env[N_('px%d' % m)] - mid[0], env[N_('py%d' % m)] - mid[1]) for m in pts]
                if max(far) - min(far) > 2 * 0.015 + 4 * TOL:
                    c.bad(rule, a.where, '%s: the points are %.6g to %.6g from the centre (%s)' % (what, min(far), max(far), name))
                    return
            c.undecided(rule, a.where, '%s: %s %s' % (what, short(wi or num(0)), short(wj or num(0))))


def feed(c, a, g, s, end, n, w, envs, what):
    rule = "the run's feed rate"
    f = a.R.attr(a.lines[end], 'current_f')
    if w is not None:
        compare(c, a, g, rule, what, w, [f], lambda env, st: env[N_('F')], envs)
        return
    no = band(g, bnot(eq_zero(f)))
    if no is FALSE:
        c.ok(rule, a.where, what)
    elif possible(no, envs):
        c.bad(rule, a.where, '%s: no F' % what)
    else:
        c.undecided(rule, a.where, what)


def extrusion(c, a, g, s, end, n, w, envs, what):
    R = a.R
    rule = "the run's filament scaled from chords to arcs"
    pts = list(range(s + 1, end + 1))
    run = a.lines[s + 1:end + 1]
    moves = band(g, *[bnot(is_none_d(R.attr(l, 'e'))) for l in run])
    travel = band(g, *[is_none_d(R.attr(l, 'e')) for l in run])
    if w is None:
        if moves is FALSE:
            c.ok(rule, a.where, what)
        elif possible(moves, envs):
            c.bad(rule, a.where, '%s: no E' % what)
        else:
            c.undecided(rule, a.where, what)
        return
    if travel is not FALSE:
        if possible(travel, envs):
            c.bad(rule, a.where, '%s: E for a travel' % what)
        else:
            c.undecided(rule, a.where, '%s: E for a travel' % what)
    if moves is FALSE:
        return
    rel = a.rel_e is TRUE
    fil = [constrain(R.attr(l, 'e'), moves) for l in run] if rel else [padd(a_e(a, i), a_e(a, i - 1), -1) for i in pts]
    start = num(0) if rel else a_e(a, s)
    sq = lambda x: pmul(x, x)
    wants, signed = [], []
    length = [R.I.sqrt(padd(sq(padd(a.xs[i], a.xs[i - 1], -1)), sq(padd(a.ys[i], a.ys[i - 1], -1)))) for i in pts]
    try:
        for k in range(len(a.centres)):
            al = [a.step(k, i) for i in pts]
            wants.append(padd(start, sum_up([pdiv(pmul(e, d), pscale(num_app('sin', pscale(d, Fraction(1, 2))), 2)) for e, d in zip(fil, al)])))
            for r, x, y in a.circles():
                for ds, to in (([R.I.absolute(d) for d in al], wants), (al, signed), ([neg(d) for d in al], signed)):
                    arcs = sum_up([pmul(d, r) for d in ds])
                    to.append(padd(start, pmul(arcs, pdiv(sum_up(fil), sum_up(length)))))
    except (Limit, Unsup):
        pass

    def value(env, st):
        es = [env[N_('e%d' % i)] for i in pts]
        tot = sum(es)
        if any(abs(e * len(fil) / tot - 1) > 1e-6 for e in es):
            return None
        return (0 if rel else env[N_('ce%d' % s)]) + tot * st / (2 * math.sin(st / 2))
    compare(c, a, moves, rule, what, w, wants, value, envs, digits=5, tol=1e-4, signed=signed)


ARC = {'X': end_point, 'Y': end_point, 'Z': height, 'I': nothing, 'J': nothing, 'E': extrusion, 'F': feed}


def a_e(a, i):
    return a.R.attr(a.lines[i], 'current_e')


def true(g, env):
    try:
        return bool(Values(env).of(g))
    except NoValue:
        return False


def possible(g, envs):
    return any(true(g, env) for n, env, st in envs)


def position(c, a, g, s, end, n, w, envs, what):
    rule = "a position setting restores the run's final E"
    if n == 'E' and w is not None:
        compare(c, a, g, rule, what, w, [a_e(a, end)], lambda env, st: env[N_('ce%d' % end)], envs, digits=5, tol=1e-5)
    elif (n == 'E') == (w is None):
        c.bad(rule, a.where, '%s: %s %s' % (what, n, 'missing' if w is None else short(w)))


def plain(c):
    for rel in (FALSE, TRUE):
        for rel_e in (FALSE, TRUE):
            c.attempt('9 moves', one, c, 9, rel, rel_e, secs=300)


def around(c):
    for k in (1, 2, 3, 5, 8):
        for sg in (1, -1):
            c.attempt('9 moves', one, c, 9, FALSE, TRUE if k != 5 else FALSE, (k, sg), secs=300)


def more(c):
    c.attempt('10 moves', one, c, 10, FALSE, FALSE, secs=300)


PARTS = [plain, around, more]
