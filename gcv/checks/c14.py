"""C14: the walk over a program"""
from .entry import *
from ..alg import round_

EXPLANATION = ('GCodeIterator is interpreted on programs of every layer shape in a small scope whose layers have arbitrary heights (printed, not '
               'printed, none, or one seen before) and on programs read from text; what the visitor is told - which of its methods, on which layer or line '
               'object, with which layer index, line number and layer number - is compared with the order of the program, the rank of the height '
               'among the printed ones and the running number of the line, on all orders of the heights.')
VIS = 'gcodeutils.visit.visitor.GCodeVisitor'
CALLS = ('will_visit_layer', 'visit_line', 'did_visit_layer')
INFO = ('gcode', 'layer_number', 'layer_index', 'line_number', 'is_printed')
# per layer: number of lines, kind of height: p printed, - none, u not printed, = that of the layer two before
SHAPES = [[], ['0-'], ['2p'], ['1-', '2p'], ['1-', '1p', '2p', '0-'], ['2p', '1u', '1p'], ['1p', '0u', '2=', '1p'], ['1p', '1p', '1p'], ['1-', '1p', '1u', '2=', '3-'],
          ['0p', '1p', '0=']]
TEXTS = [['G1 X1'], ['G28', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', 'M107'],
         ['G1 Z5', 'G1 X2', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', ';', 'G1 Z0.2', 'G1 X3 E3', 'G1 Z9', 'G1 X4'],
         ['G1 Z0.3', 'G1 X1 E1', 'G1 Z0.6', 'G1 X1 E2', 'G1 Z0.9', 'G1 X1 E3', 'G1 Z0.7', 'G1 X2'], []]


def told(I, kind, st, args, n):
    what = args[1]
    info = [I.getattr(st, args[2], a, n) for a in INFO]
    I.event(st, 'told', C(kind), what, *info)
    return NONE


def hook(R):
    k = R.get(VIS)
    if k is None or k.op != 'cls':
        return None
    for x in CALLS:
        f, _ = R.I.cls_attr(None, k.args[0], x)
        if f is None or f.op != 'fn':
            return None
        R.I.intrinsics[f.args[0].qual] = (lambda kind: lambda I, st, args, kw, n: told(I, kind, st, args + [kw[a] for a in ('layer_as_pyline_list', 'pyline', 'gcode_iterator_info') if a in kw], n))(x)
    return k


def build(R, shape):
    """program of the shape -> (program, [(layer, [lines], height)], heights printed, facts)"""
    g = R.obj('gc', GC)
    out, heights, facts = [], [], TRUE
    others = []
    for j, s in enumerate(shape):
        ls = [new_line(R, 'l%d.%d' % (j, q)) for q in range(int(s[0]))]
        z = NONE if s[1] == '-' else out[j - 2][2] if s[1] == '=' else poly_of(sym('z%d' % j, 'num'))
        if s[1] == 'p':
            heights.append(z)
        if s[1] == 'u':
            others.append(z)
        out.append((R.obj('layer%d' % j, LAYER, z=z, **{'$seq': seq(*ls)}), ls, z))
    near = [round_(z, num(2)) for z in heights]
    far = [round_(z, num(2)) for z in others]
    for i, a in enumerate(near):
        for b in near[:i] + far:
            facts = band(facts, bnot(eq_zero(padd(a, b, -1))))
    R.st.m[(g.args[0], 'all_layers')] = R.I.new_list(R.st, seq(*[x[0] for x in out]))
    R.st.m[(g.args[0], 'lines')] = R.I.new_list(R.st, seq(*[l for x in out for l in x[1]]))
    R.st.m[(g.args[0], 'all_zs')] = R.obj('zs', 'set', **{'$seq': seq(*heights)})
    return g, out, heights, facts


def walk(c, R, g, what, care):
    k = hook(R)
    w = c.where(R, ITER + '.accept')
    it = R.get(ITER)
    if k is None or it is None or it.op != 'cls':
        c.undecided('walk', ITER, 'no such class')
        return None
    v = R.call(k)
    i = R.call(it, g)
    if i is None or i.op != 'ref' or v is None:
        c.bad('no failure', w, 'the iterator is not built: ' + what)
        return None
    n = len(R.I.obligs)
    R.method(i, 'accept', v)
    R.I.intrinsics.clear()
    return R.st.m.get((WORLD, '$ev'), EMPTYSEQ)


def compare(c, R, g, layers, heights, ev, care, what):
    w = c.where(R, ITER + '.accept')
    want = []
    total = 0
    for layer, ls, z in layers:
        want.append(('will_visit_layer', layer, total if ls else None))
        for l in ls:
            want.append(('visit_line', l, total))
            total += 1
        want.append(('did_visit_layer', layer, total - 1 if ls else None))
    seqs = lift1(lambda q: mk('tup', tuple(mk('tup', r[:3]) for r in event_rows(q) if r[0] is C('told'))) if q.op == 'seq' and event_rows(q) is not None
                 else mk('opaque', q), ev)
    c.same('each layer and line is told of once, in order', w, seqs, mk('tup', tuple(mk('tup', (C('told'), C(k), x)) for k, x, _ in want)), care, detail=what)

    def field(p, a):
        def f(q):
            rows = [r for r in event_rows(q) or () if r[0] is C('told')] if q.op == 'seq' else []
            return rows[p][3 + INFO.index(a)] if p < len(rows) else NONE
        return lift1(f, ev)
    p = 0
    for j, (layer, ls, z) in enumerate(layers):
        printed = B(z is not NONE and z in heights)
        rank = NONE
        if z is not NONE and z in heights:
            a = round_(z, num(2))
            rank = num(0)
            for o in heights:
                if o is not z:
                    rank = lift2(lambda s, t: padd(s, num(1)) if t is TRUE else s, rank, lt_zero(padd(round_(o, num(2)), a, -1)))
        for k in range(len(ls) + 2):
            kind, _, number = want[p]
            d = '%s, %s of layer %d' % (what, kind, j)
            c.same('the program is told', w, field(p, 'gcode'), g, care, detail=d)
            c.same('the index of the layer is told', w, field(p, 'layer_index'), num(j), care, detail=d)
            c.same('whether the layer is printed is told', w, field(p, 'is_printed'), printed, care, detail=d)
            if number is not None:
                c.same('the number of the line is told', w, field(p, 'line_number'), num(number), care, detail=d)
            if rank is not NONE:
                c.same('the number of a printed layer is the rank of its height', w, field(p, 'layer_number'), rank, care, detail=d)
            p += 1


def shapes(c):
    for shape in SHAPES:
        R = c.run()
        c.need(R, GC)
        g, layers, heights, facts = build(R, shape)
        what = 'layers ' + ' '.join(shape)
        ev = walk(c, R, g, what, facts)
        if ev is None:
            continue
        compare(c, R, g, layers, heights, ev, facts, what)
        for gd, e, s, m in c.raises(R):
            c.never('no failure', str(s), band(gd, facts), '%s: %s' % (e, what))
        c.seen(R)
        c.no_unsup(R)


def parsed(c):
    from .c03 import layer_table, parse as read
    for lines in TEXTS:
        R = c.run()
        c.need(R, GC)
        g, raws = read(c, R, lines)
        what = 'parsing ' + ' / '.join(lines)
        tab = layer_table(R, g)
        zs = R.I.content(R.st, R.attr(g, 'all_zs'))
        ls = R.I.content(R.st, R.attr(g, 'all_layers'))
        if tab.op != 'tup' or zs.op != 'seq' or any(p.op != 'e' for p in zs.args[0]) or any(l.op != 'tup' for l in tab.args[0]):
            c.undecided('walk', GC, what)
            continue
        heights = [p.args[0] for p in zs.args[0] if p.args[0] is not NONE]
        layers = [(l.args[0], list(t.args[0]), R.attr(l.args[0], 'z')) for l, t in zip(ls.args[0], tab.args[0])]
        ev = walk(c, R, g, what, TRUE)
        if ev is not None:
            compare(c, R, g, layers, heights, ev, TRUE, what)
        for gd, e, s, m in c.raises(R):
            c.never('no failure', str(s), gd, '%s: %s' % (e, what))
        c.seen(R)
        c.no_unsup(R)


PARTS = [shapes, parsed]
