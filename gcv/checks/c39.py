"""C39: printed heights"""
from .c03 import *
from .c34 import least

EXPLANATION = ('Programs of one to five lines that change the height (absolute, relative, position settings, inches) and extrude arbitrary amounts, before, after '
               'and while changing it, are read. For every height a line is at, the set of printed heights holds it exactly if a layer that ends at '
               'this height holds a line that extrudes (by the reference machine); nothing else is in the set, the number of layers is its size '
               'and the vertical limits are its smallest and greatest element and zero.')


def L(letter, n, words='', tag=''):
    """a line: words with a fixed number or, as X#, with an arbitrary one"""
    t = Text.__new__(Text)
    t.name = ('%s%s %s' % (letter, n, words)).strip()
    t.letter, t.d, t.vals = letter, C(n), {}
    parts = [C('%s%s' % (letter, n) if letter else '; note')]
    for w in words.split():
        k = w[0].lower()
        if w[1:].endswith('#'):
            v = number('%s.%s', 'v%s%s' % (tag, w[0]))
            t.vals[k] = num_app('float', v)
            if w[1] == '-':
                t.vals[k] = neg(t.vals[k])
            parts += [C(' ' + w[:-1]), v]
        else:
            t.vals[k] = num(Fraction(w[1:]))
            parts.append(C(' ' + w))
    t.named = set(t.vals)
    t.text = strcat(parts)
    return t


def prog(*ls):
    out = []
    for i, s in enumerate(ls):
        m = s.split(' ', 1)
        out.append(L(m[0][:1] if m[0] != ';' else '', m[0][1:], m[1] if len(m) > 1 else '', 'p%d' % i))
    return out


PROGS = [
    ('G1 Z0.2', 'G1 X1 E#', 'G1 Z0.4', 'G1 X2 E#'),
    ('M83', 'G1 Z0.2', 'G1 X1 E#', 'G1 Z0.4 X2 E#', 'G1 Z0.6 X1 E#'),
    ('M83', 'G1 Z0.2', 'G1 X1', 'G1 Z0.4 X2 E1', 'G1 X3'),
    ('M83', 'G1 Z0.2 E1', 'G1 Z0.4', 'G1 Z0.6 E#', 'G1 Z0.2 E#'),
    ('M83', 'G1 Z0.2 E1', 'G1 Z0.4 E2', 'G1 Z0.6 E3', 'G1 Z0.8 E4'),
    ('G1 Z0.2', 'G1 E2', 'G1 Z0.4', 'G1 E1', 'G1 Z0.6'),
    ('G1 Z0.2', 'G1 E5', 'G92 E0', 'G1 Z0.4', 'G1 X1 E3'),
    ('G91', 'G1 Z1', 'G1 X1 E#', 'G1 Z2 X1', 'G1 X2 E#'),
    ('G91', 'G1 Z1 E1', 'G1 Z1', 'G1 Z1 E#', 'G1 Z-1'),
    ('G92 Z0.5', 'G1 X1 E#', 'G1 Z1', 'G1 X1'),
    ('G20', 'G1 Z1 E1', 'G1 Z2', 'G1 X2 E#'),
    ('M83', 'G1 Z3', 'G1 Z3.2', 'G1 X1 E1', 'G1 Z3', 'M104 S1'),
    ('M83', 'G3 Z1 X1 E1', 'G2 Z2 X1 E#', 'G0 Z3'),
    ('M83', 'G1 Z-1 E1', 'G1 Z-2 E#'),
    ('G1 Z1', '; ', 'M106', 'G1 X1'),
    ('M83', 'G1 Z1', 'G1 E#', '; ', 'G1 Z2'),
    ('G1 E#',), ('G1 Z#',), ('G1 Z# E#',), ('G1 Z#', 'G1 E#'), ('G1 Z#', 'G1 Z# E#'), ('M83', 'G1 E1', 'G1 Z#', 'G1 E1'),
    ('M83', 'G1 Z# E1', 'G1 Z#', 'G1 X1'), ('M83', 'G1 Z1', 'G1 E1', 'G1 Z# E#'), ('M83', 'G1 Z0.2', 'G1 X1 E-1', 'G1 Z0.4', 'G1 X1 E1'),
]


def heights(ts):
    """height after every line, extrusion of every line (diagrams)"""
    s, z, zs, ext = concrete_start(), NONE, [], []
    for t in ts:
        rel = s['relative']
        s, rec = step(s, t)
        if 'z' in t.vals and t.letter == 'G':
            v = ite(s['imperial'], pscale(t.vals['z'], Fraction(254, 10)), t.vals['z'])
            n = lift2(lambda a, b: b if a is NONE else padd(a, b), z, v)
            z = ite(t.is_('G', '92'), v, ite(rec['move'], ite(rel, n, v), z))
        zs.append(z)
        ext.append(lift1(lambda l: FALSE if l is NONE else lt_zero(neg(l)), rec['advance']))
    return zs, ext


def eq_h(a, b):
    return lift2(lambda x, y: B(x is y) if NONE in (x, y) else eq_zero(padd(x, y, -1)) if x.op == 'p' and y.op == 'p' else lit(atom('true', mk('diff', x, y))), a, b)


def one(c, R, ls):
    ts = prog(*ls)
    R.st = State()
    del R.I.obligs[:]
    w = c.where(R, GC + '._preprocess')
    what = '; '.join(t.name for t in ts)
    g = R.call(GC, R.I.new_list(R.st, seq(*[t.text for t in ts])))
    care = oblig_care(R, c, TRUE)
    zs, ext = heights(ts)
    tab = layer_table(R, g)
    lines = rows(R, R.attr(g, 'lines'))
    if lines.op != 'tup' or len(lines.args[0]) != len(ts):
        c.undecided('lines', w, what)
        return
    index = {l: k for k, l in enumerate(lines.args[0])}
    if any(t.op != 'tup' or any(l.op != 'tup' or any(x not in index for x in l.args[0]) for l in t.args[0]) for t in leaves(tab)):
        c.undecided('layers', w, what)
        return
    got = rows(R, R.attr(g, 'all_zs'))
    if any(t.op != 'tup' for t in leaves(got)):
        c.undecided('printed heights', w, what)
        return

    def printed(t, h):
        r = FALSE
        for l in t.args[0]:
            if l.args[0]:
                ks = [index[x] for x in l.args[0]]
                r = bor(r, band(bor(*[ext[k] for k in ks]), eq_h(zs[ks[-1]], h)))
        return r
    items = []
    done = set()
    for k, h in enumerate(zs):
        if h in done:
            continue
        done.add(h)
        known = lift1(lambda x: B(x is not NONE), h)
        has = lift1(lambda t: bor(*[eq_h(x, h) for x in t.args[0]]) if t.args[0] else FALSE, got)
        want = lift1(lambda t: printed(t, h), tab)
        items.append((band(known, want), h))
        c.same('a height is printed exactly if something is extruded in a layer at it', w, has, want, band(care, known), detail='%s: the height after line %d' % (what, k + 1))
    c.same('every printed height is one the program goes to', w, lift1(lambda t: band(*[bor(eq_h(x, NONE), *[eq_h(x, h) for h in zs]) for x in t.args[0]]) if t.args[0] else TRUE, got),
           TRUE, care, detail=what)
    c.same('the number of layers is the number of printed heights', w, R.attr(g, 'layers_count'), lift1(lambda t: num(len(t.args[0])), got), care, detail=what)
    items.append((TRUE, num(0)))
    c.same('the top is the greatest printed height', w, R.attr(g, 'zmax'), least(items, -1), care, detail=what)
    c.same('the bottom is the smallest printed height', w, R.attr(g, 'zmin'), least(items, 1), care, detail=what)


def check(c):
    R = c.run()
    c.need(R, GC)
    for ls in PROGS:
        c.attempt('; '.join(ls), one, c, R, ls, secs=60)
    for gd, e, s, m in c.raises(R):
        c.never('reading never fails', str(s), gd, '%s %s' % (e, m))
    c.seen(R)
    c.no_unsup(R)


PARTS = [check]
