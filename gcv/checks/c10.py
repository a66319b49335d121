"""C10: comparison of programs and of lines"""
import itertools
from .common import *

EXPLANATION = ('PyLine.__eq__/__ne__ are interpreted abstractly on two arbitrary lines and their truth value compared, as a decision diagram, with '
               'the documented one in both orders. GCode.__eq__/diff are interpreted on two programs of every layer shape in a small scope with '
               'arbitrary lines (commands or comments, any coordinates) and compared with: the command lines are equal in number and pairwise '
               'equal; the difference report is empty exactly then; both orders.')
EPS = Fraction(1, 1000)


def spec_lines(R, a, b):
    ca, cb = R.attr(a, 'command'), R.attr(b, 'command')
    r = lift2(lambda p, q: TRUE if p is q else FALSE if NONE in (p, q) else R.I.str_eq(p, q), ca, cb)
    for k in COORDS:
        va, vb = R.attr(a, k), R.attr(b, k)

        def f(p, q):
            if NONE in (p, q):
                return B(p is q)
            d = padd(p, q, -1)
            return band(bnot(lt_zero(padd(num(EPS), d, -1))), bnot(lt_zero(padd(num(EPS), d))))
        r = band(r, lift2(f, va, vb))
    return r


def lines(c):
    for name, first in (('self first', True), ('other first', False)):
        R = c.run()
        c.need(R, LINE)
        a, b = new_line(R, 'a'), new_line(R, 'b')
        want = spec_lines(R, a, b)
        l, r = (a, b) if first else (b, a)
        w = c.where(R, LINE + '.__eq__')
        c.same('line equality, %s' % name, w, R.method(l, '__eq__', r), want)
        c.same('line inequality, %s' % name, w, R.method(l, '__ne__', r), bnot(want))
        c.seen(R)
        for g, e, s, m in c.raises(R):
            c.never('no failure', str(s), g, e)
        c.no_unsup(R)


SHAPES = [(), (1,), (2,), (1, 1), (0, 1, 0)]


def program(R, name, shape):
    ls, k = [], 0
    layers = []
    for j, n in enumerate(shape):
        own = [new_line(R, '%s%d' % (name, k + q)) for q in range(n)]
        k += n
        ls += own
        layers.append(R.obj('%s.layer%d' % (name, j), LAYER, **{'$seq': seq(*own)}))
    lst = R.obj('%s.layers' % name, 'list', **{'$seq': seq(*layers)})
    flat = R.obj('%s.lines' % name, 'list', **{'$seq': seq(*ls)})
    return R.obj(name, GC, all_layers=lst, lines=flat), ls


def spec_programs(R, ls, ms):
    """command lines equal in number and pairwise equal"""
    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i < len(ls):
            skip = is_none_d(R.attr(ls[i], 'command'))
            if j < len(ms):
                skip2 = is_none_d(R.attr(ms[j], 'command'))
                r = ite(skip, go(i + 1, j), ite(skip2, go(i, j + 1), band(spec_lines(R, ls[i], ms[j]), go(i + 1, j + 1))))
            else:
                r = band(skip, go(i + 1, j))
        elif j < len(ms):
            r = band(is_none_d(R.attr(ms[j], 'command')), go(i, j + 1))
        else:
            r = TRUE
        memo[i, j] = r
        return r
    memo = {}
    return go(0, 0)


def programs(c):
    for s1 in SHAPES:
        for s2 in SHAPES:
            R = c.run()
            c.need(R, GC)
            g, ls = program(R, 'g', s1)
            h, ms = program(R, 'h', s2)
            want = spec_programs(R, ls, ms)
            what = 'layers of %s and of %s lines' % (list(s1), list(s2))
            w = c.where(R, GC + '.__eq__')
            c.same('program equality (%s)' % what, w, R.method(g, '__eq__', h), want)
            w = c.where(R, GC + '.diff')
            d = R.method(g, 'diff', h)
            if d is None:
                c.bad('difference report (%s)' % what, w, 'always raises')
            else:
                c.same('difference report empty exactly when equal (%s)' % what, w, is_none_d(d), want)
                c.same('difference report not blank when different (%s)' % what, w, bnot(R.I.truth(R.st, d)), want)
            c.seen(R)
            for g_, e, s, m in c.raises(R):
                c.never('no failure', str(s), g_, e)
            c.no_unsup(R)


PARTS = [lines, programs]
