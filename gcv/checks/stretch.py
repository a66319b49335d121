"""runs of the stretch filters on given lines"""
from .entry import *
from ..alg import pdiv

MOD = 'gcodeutils.stretch.stretch.'
BASE = MOD + 'StretchFilter'
DIALECTS = [MOD + 'Slic3rStretchFilter', MOD + 'CuraStretchFilter', MOD + 'SkeinforgeStretchFilter']
INNER, OUTER, LOOP, STOP = ('stretch-loop-start stretch-inner-edge-start', 'stretch-loop-start stretch-outer-edge-start', 'stretch-loop-start', 'stretch-loop-stop')
HELPERS = ('get_relative_stretch', 'get_cross_limited_stretch')
RATIOS = {'inner': 'edge_inside_stretch_over_edge_width', 'outer': 'edge_outside_stretch_over_edge_width', 'loop': 'loop_stretch_over_edge_width'}


class Stretch(object):
    """one filter with arbitrary positive settings; the direction and size a point is moved by before limits are arbitrary"""

    def __init__(self, c, cls, given=True):
        self.c = c
        R = self.R = c.run()
        c.need(R, GC)
        self.ok = False
        k = R.get(cls)
        if k is None or k.op != 'cls':
            c.undecided('analysis', cls, 'no such class')
            return
        self.cls = k.args[0]
        self.set = {n: poly_of(sym(n, 'num')) for n in list(RATIOS.values()) + ['stretch_strength', 'cross_limit_distance_over_edge_width',
                                                                               'stretch_from_distance_over_edge_width']}
        self.width = poly_of(sym('width', 'num'))
        self.facts = TRUE
        for v in [self.set[r] for r in RATIOS.values()] + [self.set['stretch_strength'], self.width]:
            self.facts = band(self.facts, lt_zero(neg(v)))
        R.st.pc = self.facts
        self.obj = R.call(k, **self.set)
        if self.obj is None or self.obj.op != 'ref':
            c.undecided('analysis', cls, 'not built')
            return
        R.method(self.obj, 'set_edge_width', self.width)
        self.where = c.where(R, BASE + '.get_stretched_line_from_index_location')
        self.calls = 0
        for h in HELPERS:
            f, _ = R.I.cls_attr(None, self.cls, h)
            if f is None or f.op != 'fn':
                c.undecided('analysis', cls, 'no %s to stand for an arbitrary stretch' % h)
                return
            R.I.intrinsics[f.args[0].qual] = self.arbitrary
        self.start = R.st
        self.ok = True

    def arbitrary(self, I, st, args, kw, n):
        self.calls += 1
        return mk('cx', poly_of(sym('re%d' % self.calls, 'num')), poly_of(sym('im%d' % self.calls, 'num')))

    def maximum(self, kind):
        return pmul(self.width, pmul(self.set[RATIOS[kind]], self.set['stretch_strength']))

    def layer(self, lines):
        """makes the lines the current layer"""
        R = self.R
        l = R.obj('layer', LAYER, **{'$seq': seq(*lines)})
        R.st.m[(self.obj.args[0], 'current_layer')] = l
        return l

    def feed(self, lines):
        """each line given to the filter in turn -> answers"""
        R = self.R
        self.layer(lines)
        out = []
        for k, l in enumerate(lines):
            R.st.m[(self.obj.args[0], 'line_number_in_layer')] = num(k)
            out.append(R.method(self.obj, 'parse_line', l))
        return out


def holds(needle, raw):
    return str_test('in', raw, needle)


def loop_kind(raws):
    """diagram: kind of loop the text after these lines is in (NONE outside), by the last marker"""
    v = NONE
    for r in raws:
        v = ite(holds(INNER, r), C('inner'), ite(holds(OUTER, r), C('outer'), ite(holds(LOOP, r), C('loop'), ite(holds(STOP, r), NONE, v))))
    return v


def one_marker(raws):
    """no line is the start of two kinds of loops"""
    care = TRUE
    for r in raws:
        care = band(care, bnot(band(holds(INNER, r), holds(OUTER, r))))
        for m in (INNER, OUTER):
            care = band(care, bor(bnot(holds(m, r)), holds(LOOP, r)))
    return care


def clear(p):
    """p times an even power of its roots so that none is left in a denominator, and even powers of roots worked out"""
    if p.op != 'p':
        return p
    roots = {}
    for m, k in p.args[0]:
        for n, w in m:
            if n.op == 'app' and n.args[0] == 'sqrt':
                roots[n] = min(roots.get(n, 0), w)
    for r, w in sorted(roots.items(), key=lambda x: x[0].id):
        if w < 0:
            w = -w + (w % 2)
            t = poly_of(r)
            for _ in range(w):
                p = pmul(p, t)
    out = num(0)
    for m, k in p.args[0]:
        t = num(k)
        for n, w in m:
            if n.op == 'app' and n.args[0] == 'sqrt' and w > 1:
                for _ in range(w // 2):
                    t = pmul(t, n.args[1])
                w %= 2
            f = poly_of(n)
            for _ in range(abs(w)):
                t = pmul(t, f) if w > 0 else pdiv(t, f)
        out = padd(out, t)
    return out


def squared(g):
    """guard with comparisons of a single root with a positive number replaced by those of the squares"""
    m = {}
    for a in g.sup:
        if a.kind in ('lt0', 'eq0'):
            p = a.args[0]
            parts = [(mm, k) for mm, k in p.args[0] if mm != ()]
            const = sum((k for mm, k in p.args[0] if mm == ()), Fraction(0))
            if len(parts) == 1 and len(parts[0][0]) == 1 and parts[0][0][0][1] == 1:
                n = parts[0][0][0][0]
                if n.op == 'app' and n.args[0] == 'sqrt' and parts[0][1] > 0 and const < 0:
                    b = const / parts[0][1]
                    q = padd(n.args[1], num(b * b), -1)
                    m[a] = lt_zero(q) if a.kind == 'lt0' else eq_zero(q)
    if not m:
        return g

    def go(d):
        if d.op != 'ite':
            return d
        a = d.args[0]
        return ite(m.get(a, lit(a)), go(d.args[1]), go(d.args[2]))
    return go(g)
