"""C01: filtering visits every line once, in order"""
from .c10 import program
from .c03 import rows, layer_table
from .common import *

EXPLANATION = ('Every filter class that does not define its own walk is run with its line rule replaced by an arbitrary one: for each line it may '
               'answer nothing, another line, the line itself, or a sequence of any of them (possibly empty, possibly a tuple). The programs have '
               'every layer shape of a small scope with arbitrary lines. The recorded calls of the rule and the contents of every layer afterwards '
               '(decision diagrams over the answers) are compared with the specification. For one layer the number of lines is arbitrary as well.')
BASE = 'gcodeutils.filter.filter.GCodeFilter'
CLASSES = [BASE, 'gcodeutils.filter.translate.GCodeXYTranslateFilter', 'gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter']
SHAPES = [(), (0,), (1,), (2,), (1, 1), (0, 1, 0), (3,), (2, 1), (1, 0, 2)]
KINDS = ['none', 'self', 'line', 'empty list', 'list of one', 'itself and another', 'another, itself, another', 'tuple']


def answer_for(R, st, k, kind, own):
    """value the rule answers for line k, and the lines expected in its place"""
    def new(j):
        return R.obj('new%d.%d' % (k, j), LINE)
    if kind == 'none':
        return NONE, (own,)
    if kind == 'self':
        return own, (own,)
    if kind == 'line':
        return new(0), (new(0),)
    if kind == 'tuple':
        return mk('tup', (new(0), own)), (new(0), own)
    es = {'empty list': (), 'list of one': (new(0),), 'itself and another': (own, new(0)), 'another, itself, another': (new(0), own, new(1))}[kind]
    return R.I.new_list(st, seq(*es)), es


def rule_of(cls):
    return cls + '.opcode_filter'


def run_one(c, R, cls, shape, kinds):
    """kinds: list of answer kinds per line; None: any of KINDS, chosen by unknowns"""
    R.st = State()
    del R.I.obligs[:]
    g, ls = program(R, 'g', shape)
    layers0 = rows(R, R.attr(g, 'all_layers'))
    own_layers = [p for p in elems_of(R, R.attr(g, 'all_layers'))]
    calls = []
    index = {l: k for k, l in enumerate(ls)}
    want = {}
    log = R.I.new_list(R.st, seq())

    def rule(I, st, args, kw, n):
        ln = args[-1] if args else kw.get('opcode', kw.get('x'))
        I.set_content(st, log, concat(I.content(st, log), seq(ln)), n)

        def f(l):
            k = index.get(l)
            if k is None:
                return NONE
            return answer_for(R, st, k, kinds[k], l)[0]
        return lift1(f, ln)
    quals = {q for q in (rule_of(cls), rule_of(BASE))}
    for q in quals:
        R.I.intrinsics[q] = rule
    try:
        flt = R.call(cls)
        R.method(flt, 'filter', g)
    finally:
        for q in quals:
            R.I.intrinsics.pop(q, None)
    w = c.where(R, BASE + '.parse_layer')
    what = '%s, layers of %s lines, answers %s' % (cls.split('.')[-1], list(shape), ', '.join(kinds) or 'none')
    for g_, e, s, m in c.raises(R):
        c.never('filtering never fails', str(s), g_, '%s %s: %s' % (e, m, what))
    c.same('the rule sees every line exactly once, in order', w, rows(R, log), mk('tup', tuple(ls)), detail=what)
    c.same('the layers stay', w, rows(R, R.attr(g, 'all_layers')), layers0, detail=what)
    k = 0
    for j, size in enumerate(shape):
        exp = ()
        for _ in range(size):
            exp += answer_for(R, State(), k, kinds[k], ls[k])[1]
            k += 1
        c.same('the layer holds the answers in place of the lines', w, rows(R, own_layers[j]), mk('tup', exp), detail='layer %d; %s' % (j, what))


def elems_of(R, v):
    return [p.args[0] for p in R.I.content(R.st, v).args[0]]


def shapes(c):
    import itertools
    for cls in CLASSES:
        R = c.run()
        c.need(R, GC)
        if R.get(cls) is None:
            c.undecided('entry point', cls, 'not found')
            continue
        for shape in SHAPES:
            n = sum(shape)
            some = KINDS if cls == BASE else ['none', 'line', 'itself and another']
            if n > 2:
                some = ['none', 'line', 'empty list', 'itself and another'] if cls == BASE else ['none', 'list of one']
            for kinds in itertools.product(some, repeat=n):
                run_one(c, R, cls, shape, list(kinds))
        c.seen(R)
        c.no_unsup(R)


def generic(c):
    """any number of layers of any number of lines, the rule an arbitrary function of the line"""
    for cls in CLASSES:
        R = c.run()
        c.need(R, GC)
        if R.get(cls) is None:
            continue

        def ask(l, k):
            return lit(atom('truthy', mk('app', 'ask%d' % k, l)))

        def new(l, k):
            b = l.args[0]       # element of the lines of a layer: the answer is the element of another list
            return at_base(mk('app', 'items', mk('app', 'new%d' % k, b.args[1]), 'obj:' + LINE), b.args[2])

        def answer(l):
            return ite(ask(l, 0), NONE, ite(ask(l, 1), new(l, 1), ite(ask(l, 2), mk('tup', ()), ite(ask(l, 3), mk('tup', (new(l, 1), l, new(l, 2))), l))))

        def put(l):
            def f(v):
                return mk('seq', tuple(elem(x) for x in ((l,) if v is NONE else v.args[0] if v.op == 'tup' else (v,))))
            return lift1(f, answer(l))

        def rule(I, st, args, kw, n):
            return lift1(answer, args[-1] if args else list(kw.values())[0])
        for q in {rule_of(cls), rule_of(BASE)}:
            R.I.intrinsics[q] = rule
        g = R.obj('g', GC)
        before = R.I.content(R.st, R.attr(g, 'all_layers'))
        n = seq_len(before)
        j = idx_sym(n, 9)
        lay = R.I.part_elem(before.args[0][0], poly_of(j))
        lines = R.I.content(R.st, lay)
        flt = R.call(cls)
        R.method(flt, 'filter', g)
        w = c.where(R, BASE + '.parse_layer')
        for g_, e, s, m in c.raises(R):
            c.never('filtering never fails', str(s), g_, '%s %s' % (e, m))
        what = '%s, any program' % cls.split('.')[-1]
        c.same('the layers stay', w, R.I.content(R.st, R.attr(g, 'all_layers')), before, detail=what)
        got = R.I.content(R.st, lay)
        m = seq_len(lines)
        i = idx_sym(m, 1)
        own = R.I.part_elem(lines.args[0][0], poly_of(i))
        want = fm(m, i, put(own))
        some = any_(m, i, bnot(ask(own, 0)))
        rule_ = 'each layer holds the answers in place of the lines'
        c.same(rule_, w, got, want, some, detail=what)
        c.same(rule_, w, got, want, bnot(some), eq=lambda a, b: True if a is lines else None, detail=what)
        c.seen(R)
        c.no_unsup(R)


PARTS = [generic, shapes]
