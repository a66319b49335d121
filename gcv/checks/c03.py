"""C03: layers partition the lines; lookups"""
from .machine import *
from .c09 import text, stripped

EXPLANATION = ('Programs of one to five texts - moves along any axis with arbitrary numbers, absolute and relative, travel and extruding, position '
               'settings, comments and blanks - are read, and further texts appended; the layer lists that come out (a decision diagram over the '
               'numbers) are compared with the lines kept: the layers one after the other are exactly the lines, and for every line number the '
               'lookups name the layer and the position where that very line object is.')


def elems(q):
    """elements of a list content leaf, None if its length is not known"""
    if q.op != 'seq' or any(p.op != 'e' for p in q.args[0]):
        return None
    return tuple(p.args[0] for p in q.args[0])


def rows(R, v):
    """diagram of tuples of elements of a list value"""
    def f(l):
        q = R.I.content(R.st, l) if l.op == 'ref' else l
        return lift1(lambda s: mk('tup', elems(s)) if elems(s) is not None else mk('opaque', s), q)
    return lift1(f, v)


def layer_table(R, g):
    """diagram of tuples (one per layer) of tuples of the lines in it"""
    def f(t):
        if t.op != 'tup':
            return t
        r = mk('tup', ())
        for l in t.args[0]:
            r = lift2(lambda a, b: mk('tup', a.args[0] + (b,)) if a.op == 'tup' else a, r, rows(R, l))
        return r
    return lift1(f, rows(R, R.attr(g, 'all_layers')))


def flat(t):
    if t.op != 'tup':
        return t
    out = ()
    for l in t.args[0]:
        if l.op != 'tup':
            return l
        out += l.args[0]
    return mk('tup', out)


def verify(c, R, g, w, what, raws, care=TRUE, lookups=True):
    lines = rows(R, R.attr(g, 'lines'))
    tab = layer_table(R, g)
    if raws is not None:
        def raw(t):
            if t.op != 'tup':
                return t
            r = mk('tup', ())
            for l in t.args[0]:
                r = lift2(lambda a, b: mk('tup', a.args[0] + (b,)), r, R.attr(l, 'raw'))
            return r
        c.same('the lines kept are the lines given', w, lift1(raw, lines), mk('tup', tuple(raws)), care, detail=what)
    c.same('the layers in order are the lines in order', w, lift1(flat, tab), lines, care, detail=what)
    if not lookups:
        return
    n = None
    for l in leaves(constrain(lines, care)):
        if l.op == 'tup':
            n = max(n or 0, len(l.args[0]))
    li, pi = rows(R, R.attr(g, 'layer_idxs')), rows(R, R.attr(g, 'line_idxs'))
    size = lift1(lambda t: num(len(t.args[0])) if t.op == 'tup' else t, lines)
    for a, v in (('layer_idxs', li), ('line_idxs', pi)):
        c.same('one %s entry per line' % a, w, lift1(lambda t: num(len(t.args[0])) if t.op == 'tup' else t, v), size, care, detail=what)
    for k in range(n or 0):
        def pick(t):
            return t.args[0][k] if t.op == 'tup' and len(t.args[0]) > k else NONE
        want = lift1(pick, lines)
        both = lift2(lambda a, b: mk('tup', (a, b)), lift1(pick, li), lift1(pick, pi))

        def get(t, i):
            a, b = i.args[0]
            if t.op != 'tup' or not (a.op == 'p' and is_num_const(a) and b.op == 'p' and is_num_const(b)):
                return NONE if a is NONE else mk('opaque', i)
            a, b = int(num_val(a)), int(num_val(b))
            if not 0 <= a < len(t.args[0]):
                return C('no such layer')
            r = t.args[0][a]
            if r.op != 'tup':
                return r
            return r.args[0][b] if 0 <= b < len(r.args[0]) else C('no such position')
        c.same('the lookup of line %d names where it is' % k, w, lift2(get, tab, both), want, care, detail=what)
        has = lift1(lambda t: B(t.op == 'tup' and len(t.args[0]) > k), lines)
        base = R.st.pc
        R.st.pc = band(base, has)
        x = R.method(g, 'idxs', num(k))
        R.st.pc = base
        if x is not None:
            c.same('idxs(%d) names where it is' % k, w, lift2(get, tab, lift1(lambda t: t if t.op == 'tup' and len(t.args[0]) == 2 else mk('tup', (NONE, NONE)), x)),
                   want, band(care, has), detail=what)
        else:
            c.bad('idxs(%d) names where it is' % k, w, 'always raises for ' + what)


ONE = ['G1 Z#', 'G1 X#', 'G1 Z# E#', 'G92 Z#', 'G0 Z0.#', ';', 'hello', 'G28', 'G91', ' ', 'G# X# Z#']
BASIC = ['G1 Z#', 'G1 X# E#', ';', 'G1 Z# E#', 'G92 Z#', 'G91', '\n']


def parse(c, R, shapes, extra=()):
    R.st = State()
    del R.I.obligs[:]
    ts = [text(s, str(i)) for i, s in enumerate(shapes)]
    g = R.call(GC, R.I.new_list(R.st, seq(*ts))) if ts else R.call(GC)
    raws = [text(stripped(s), str(i)) for i, s in enumerate(shapes) if stripped(s)]
    for k, s in enumerate(extra):
        R.method(g, 'append', text(s, 'a%d' % k))
        if stripped(s):
            raws.append(text(stripped(s), 'a%d' % k))
    return g, raws


def programs():
    import itertools
    out = [[s] for s in ONE]
    out += [[a, b] for a in BASIC for b in BASIC]
    out += [[a, b, d] for a in ('G1 Z#', 'G1 X# E#', 'G91') for b in ('G1 Z#', 'G1 X# E#') for d in ('G1 Z#', 'G1 X# E#', ';', 'G1 Z# E#')]
    out += [['G1 Z#', 'G1 X#', 'G1 Z#', 'G1 X#'], [';', 'G1 Z1.2', 'G1 X# E#', 'G1 Z#'], ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2', 'G1 Z0.6', 'G1 E#'],
            ['G1 Z0.2', 'G1 Z5', 'G1 X# E1', 'G1 Z0.2', 'G1 X2 E3'], ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.2', 'G1 X2'],
            ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.205', 'G1 X1 E2', 'G1 Z0.41', 'G1 X1 E3', 'G1 Z0.405', 'G1 X2 E4', 'G1 Z0.6']]
    return out


def partition(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '._preprocess')
    for shapes in programs():
        g, raws = parse(c, R, shapes)
        verify(c, R, g, w, 'parsing ' + ' / '.join(repr(s) for s in shapes), raws, oblig_care(R, c, TRUE))
    c.seen(R)
    c.no_unsup(R)


def appended(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.append')
    for shapes in ([], [' '], ['G1 Z#'], ['G1 X# E#', 'G1 Z#'], [';', 'G1 Z1', 'G1 X# E#', 'G1 Z#']):
        for extra in (['G1 X#'], ['G1 X#', 'G1 Z#'], [' '], [';', '', 'G1 Z# E#', 'M#'], ['G#', 'T', 'hello', ' G1 Z# ']):
            g, raws = parse(c, R, shapes, extra)
            verify(c, R, g, w, 'parsing %s, then appending %s' % (' / '.join(repr(s) for s in shapes), ' / '.join(repr(s) for s in extra)), raws,
                   oblig_care(R, c, TRUE))
    c.seen(R)
    c.no_unsup(R)


PARTS = [partition, appended]
