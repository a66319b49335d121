"""C23: the temperature gradient keeps every line"""
from .temp import *
from .c02 import one_file, flat_writes, written_real

EXPLANATION = ('Both gradient classes are interpreted writing programs of bounded shapes with arbitrary heights and settings; what is written on every path '
               'is shown to be the lines of the program in order, with nothing but one set-temperature command or blank line in front of a layer. '
               'The loop over any number of layers and lines is summarised for an arbitrary layer. The tool and the plugin are interpreted '
               'from the command line to the end: what the gradient writes goes to the chosen output, and nothing else does.')
RULE = 'the lines of the program in order, with at most one extra line in front of a layer'


def shapes(c):
    for kind, cls in KINDS:
        todo = [((1,), {}), ((3,), {}), ((0, 2), {}), ((), {})]
        if kind == 'continuous':
            todo += [((1, 2), dict(start=230, end=200)), ((2, 0, 1), dict(start=200, end=240, minz=num('0.2')))]
        else:
            todo += [((1, 2), dict(start=230, end=200, steps=3, top=10, minz=num('0.2'))), ((2, 0, 1), dict(start=200, end=300, steps=2, top=5, minz=num('0.2')))]
        for shape, kw in todo:
            c.attempt('%s %s' % (kind, list(shape)), case, c, kind, cls, shape, kw)


def case(c, kind, cls, shape, kw):
    t = Temp(c, cls, shape, **kw)
    if not t.ok:
        return
    what = '%s, layers of %s lines' % (kind, list(shape))
    pc = t.R.st.pc
    if pc is FALSE:
        c.ok(RULE, t.where, what + ': refused')
        return

    def wrong(l):
        if l.op == 'opaque':
            return C('foreign') if l.args[0] == 'foreign' else mk('opaque', l)
        for h in l.args[0]:
            if h.op != 'tup':
                return C('lines')
            v = command(h)
            if v.op == 'opaque':
                return C('extra')
        return C('')
    texts = {'foreign': 'something is written to another file', 'lines': 'the lines of the program are not written once each in order',
             'extra': 'more than one extra line, or one that sets no temperature'}
    res = lift1(wrong, t.parts())
    fine = True
    for l in leaves(res):
        if l.op == 'opaque':
            c.undecided(RULE, t.where, what + ': writes in a loop')
            return
        if l is not C(''):
            fine = False
            c.never(RULE, t.where, band(pc, lift1(lambda x: B(x is l), res)), '%s: %s' % (what, texts[l.args[1]]))
    if fine:
        c.ok(RULE, t.where, what)
    c.no_unsup(t.R)


def generic(c):
    """any number of layers of any number of lines"""
    for kind, cls in KINDS:
        c.attempt('%s, any program' % kind, any_program, c, kind, cls)


def any_program(c, kind, cls):
    R = c.run()
    c.need(R, GC)
    k = R.get(cls)
    if k is None or k.op != 'cls':
        c.undecided(RULE, cls, 'no such class')
        return
    g = R.obj('gc', GC)
    R.st.m[(g.args[0], 'zmax')] = poly_of(sym('zmax', 'num'))
    obj = R.call(k, gcode=g, start_temp=poly_of(sym('start', 'num')), end_temp=poly_of(sym('end', 'num')), min_z_change=poly_of(sym('minz', 'num')),
                 steps=poly_of(sym('steps', 'int')))

    def parse(I, st, a, kw, n):
        st.m[(a[0].args[0], 'zmin')] = poly_of(sym('zlow', 'num'))
        return NONE
    for q in [TEMP] + [x for _, x in KINDS]:
        R.I.intrinsics[q + '._parse_gcode'] = parse
        R.I.intrinsics[q + '.get_temp_for_current_layer'] = lambda I, st, a, kw, n: poly_of(sym('target', 'num'))
    before = R.I.content(R.st, R.attr(g, 'all_layers'))
    f = mk('ref', mk('sym', 'target', 'obj', 'file', 'w'))
    try:
        R.method(obj, 'write', f)
    finally:
        R.I.intrinsics.clear()
    c.seen(R)
    w = c.where(R, TEMP + '.write')
    n = seq_len(before)
    i = idx_sym(n, 0)
    lines = R.I.content(R.st, R.I.part_elem(before.args[0][0], poly_of(i)))
    m = seq_len(lines)
    j = idx_sym(m, 1)
    ln = R.I.part_elem(lines.args[0][0], poly_of(j))
    own = fm(m, j, seq(mk('tup', (f, strcat([R.attr(ln, 'raw'), C('\n')])))))
    want = fm(n, i, own)

    def bare(q):
        if q.op != 'seq' or len(q.args[0]) != 1 or q.args[0][0].op != 'fm':
            return q if q is EMPTYSEQ else mk('opaque', q)
        cnt, ix, body = q.args[0][0].args
        return fm(cnt, ix, ite(lt_zero(padd(m, num(1), -1)), own, lift1(strip, body)))

    def strip(b):
        ps = list(b.args[0])
        if len(ps) > 1 and ps[0].op == 'e' and ps[0].args[0].op == 'tup':
            x, t = ps[0].args[0].args[0]
            h = command(mk('tup', tuple(t.args[0]) if t.op == 'cat' else (t,)))
            if x is f and h.op != 'opaque':
                ps = ps[1:]
        return mk('seq', tuple(ps))
    got = lift1(lambda q: bare(lift1(flat_writes, q)) if q.op == 'seq' else q, R.st.m.get((WORLD, '$ev'), EMPTYSEQ))
    if any(l.op == 'opaque' for l in leaves(got)):
        c.undecided(RULE, w, 'any program: not a loop over the layers')
        return
    c.same(RULE, w, got, want, R.st.pc, detail='%s, any program' % kind)


def tools(c):
    seen = 0
    for name in TOOLS + plugins(c):
        e = Entry(c, name)
        if not e.ok:
            continue
        R = e.R
        ev = e.events()
        if not any(kind_of(r) == 'temp' for l in leaves(ev) for r in steps(l) or ()):
            continue
        seen += 1
        if len(e.refs) != 1:
            c.undecided('one program is parsed', e.where, '%s: %d' % (name, len(e.refs)))
            continue
        rule = 'what the gradient writes goes to the chosen output'
        care = oblig_care(R, c, R.st.pc)
        ns = e.namespace()
        out = ns['outfile'] if 'outfile' in ns else mk('ref', mk('sym', mk('app', 'open', mk('sym', 'filename', 'str'), C('w')), 'obj', 'file'))
        c.same(rule, e.where, lift1(written_real, ev), one_file(out, temp_text(e.refs[0])), care, detail=name)
        # the program is that of the input, unchanged
        first = lift1(lambda l: B(any(kind_of(r) in ('filter', 'visit') for r in steps(l) or ())), ev)
        c.never('nothing else changes the program', e.where, band(care, first), name)
        c.no_unsup(R)
    if not seen:
        c.undecided('entry point', 'entry points', 'no tool adds a temperature gradient')


PARTS = [shapes, generic, tools]
