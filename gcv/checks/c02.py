"""C02: saving"""
from .c10 import program
from .entry import *

EXPLANATION = ('GCode.write is interpreted on programs of every layer shape in a small scope with arbitrary lines and on a program with any number '
               'of layers of any number of lines; the text written to each file is compared with the lines in order, each followed by a newline. '
               'Every shipped tool and plugin is interpreted from its command line (or parameters) to its end with parsing and filtering replaced '
               'by arbitrary ones; on every path the text written and the file it goes to are compared with the modified program and the output '
               'chosen.')
SHAPES = [(), (0,), (1,), (2,), (1, 1), (0, 1, 0), (3,), (2, 0, 1)]


def text_of(R, layers):
    """text of the program: diagram"""
    def one(q):
        parts = []
        for p in q.args[0]:
            parts += [R.attr(p.args[0], 'raw'), C('\n')]
        return strcat(parts)

    def every(q):
        return strcat([lift1(one, R.I.content(R.st, p.args[0])) for p in q.args[0]])
    return lift1(every, R.I.content(R.st, layers))


def one_file(f, t):
    return lift2(lambda x, y: mk('tup', ()) if y is C('') else mk('tup', (mk('tup', (x, y)),)), f, t)


def save(c):
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.write')
    for shape in SHAPES:
        for dflt in (False, True):
            R.st = State()
            del R.I.obligs[:]
            g, ls = program(R, 'g', shape)
            before = rows_of(R, g)
            f = mk('ref', mk('sym', 'target', 'obj', 'file', 'w'))
            if dflt:
                R.method(g, 'write')
                f = STDOUT
            else:
                R.method(g, 'write', f)
            what = 'layers of %s lines%s' % (list(shape), ', no file given' if dflt else '')
            for g_, e, s, m in c.raises(R):
                c.never('saving never fails', str(s), g_, '%s %s: %s' % (e, m, what))
            ev = R.st.m.get((WORLD, '$ev'), EMPTYSEQ)
            c.same('the text written', w, lift1(lambda q: written(q, ()), ev), one_file(f, text_of(R, R.attr(g, 'all_layers'))), detail=what)
            c.same('the program stays', w, rows_of(R, g), before, detail=what)
            c.same('no other file is opened', w, lift1(opened, ev), mk('tup', ()), detail=what)
    c.seen(R)
    c.no_unsup(R)


def rows_of(R, g):
    return mk('tup', tuple(mk('tup', tuple(q.args[0] for q in R.I.content(R.st, p.args[0]).args[0]))
                           for p in R.I.content(R.st, R.attr(g, 'all_layers')).args[0]))


def opened(q):
    rows = event_rows(q)
    if rows is None or any(kind_of(r) == 'ext' for r in rows):
        return mk('opaque', q)
    return mk('tup', tuple(mk('tup', tuple(r)) for r in rows if kind_of(r) == 'open'))


def generic(c):
    """any number of layers of any number of lines"""
    R = c.run()
    c.need(R, GC)
    w = c.where(R, GC + '.write')
    g = R.obj('g', GC)
    f = mk('ref', mk('sym', 'target', 'obj', 'file', 'w'))
    before = R.I.content(R.st, R.attr(g, 'all_layers'))
    R.method(g, 'write', f)
    for g_, e, s, m in c.raises(R):
        c.never('saving never fails', str(s), g_, '%s %s' % (e, m))
    n = seq_len(before)
    i = idx_sym(n, 0)
    lines = R.I.content(R.st, R.I.part_elem(before.args[0][0], poly_of(i)))
    m = seq_len(lines)
    j = idx_sym(m, 1)
    ln = R.I.part_elem(lines.args[0][0], poly_of(j))
    want = fm(n, i, fm(m, j, seq(mk('tup', (f, strcat([R.attr(ln, 'raw'), C('\n')]))))))
    got = lift1(flat_writes, R.st.m.get((WORLD, '$ev'), EMPTYSEQ))
    if any(l.op == 'opaque' for l in leaves(got)):
        c.undecided('the text written', w, 'any program: not a loop over the lines')
        return
    c.same('the text written', w, got, want, detail='any program')


def flat_writes(q):
    """event sequence with the writes of one step to one file joined; opaque if there are other events"""
    out = []
    for p in q.args[0]:
        if p.op == 'e' and p.args[0].op == 'tup' and kind_of(p.args[0].args[0]) == 'write':
            _, f, t = p.args[0].args[0]
            if has_join(t):
                e = joined(f, t)
                if e is None:
                    return mk('opaque', q)
                out += list(e.args[0])
            elif out and out[-1].op == 'e' and out[-1].args[0].args[0][0] is f and out[-1].args[0].args[0][1].op != 'ite' and t.op != 'ite':
                out[-1] = elem(mk('tup', (f, strcat([out[-1].args[0].args[0][1], t]))))
            else:
                out.append(elem(mk('tup', (f, t))))
        elif p.op == 'fm':
            b = lift1(flat_writes, p.args[2])
            if any(l.op == 'opaque' for l in leaves(b)):
                return mk('opaque', q)
            b = fm(p.args[0], p.args[1], b)
            if b.op != 'seq':
                return mk('opaque', q)
            out += list(b.args[0])
        else:
            return mk('opaque', q)
    return mk('seq', tuple(out))


def has_join(t):
    return any(x.op == 'app' and x.args[0] == 'join' for l in leaves(t) for x in ([l] + list(l.args[0] if l.op == 'cat' else [])))


def joined(f, t):
    """the write of ''.join(...) as one write for each piece; None if that cannot be told"""
    if t.op != 'app' or t.args[0] != 'join' or t.args[1] is not C('') or t.args[2].op != 'seq':
        return None

    def each(q):
        out = EMPTYSEQ
        for p in q.args[0]:
            if p.op == 'e':
                x = lift1(lambda v: seq(mk('tup', (f, v))), p.args[0])
            elif p.op == 'fm':
                x = fm(p.args[0], p.args[1], lift1(each, p.args[2]))
            else:
                return mk('opaque', q)
            out = lift2(lambda a, b: b if b.op == 'opaque' else concat(a, b), out, x)
        return out
    r = each(t.args[2])
    return r if r.op == 'seq' else None


def tools(c):
    for name in TOOLS + plugins(c):
        e = Entry(c, name)
        if not e.ok:
            continue
        R = e.R
        if len(e.refs) != 1:
            c.undecided('one program is parsed', e.where, '%s: %d' % (name, len(e.refs)))
            continue
        g = e.refs[0]
        ev = e.events()
        temp = e.name == 'gcodeutils.gcode_tempcal' or any(kind_of(r) == 'temp' for l in leaves(ev) for r in event_rows(l) or ())
        text = temp_text(g) if temp else text_of(R, R.attr(g, 'all_layers'))
        care = oblig_care(R, c, R.st.pc)
        ns = e.namespace()
        if 'outfile' in ns:
            out = ns['outfile']
            if 'inplace' in ns:
                name_ = R.attr(mk('ref', mk('sym', 'arg:infile', 'obj', 'file', C('r'))), 'name')
                back = lift1(lambda x: mk('ref', mk('sym', mk('app', 'open', x, C('w')), 'obj', 'file')), name_)
                stdin = lift1(lambda x: R.I.is_leaf(x, STDIN), ns['infile'])
                out = ite(band(ns['inplace'], bnot(stdin)), back, out)
        else:
            out = mk('ref', mk('sym', mk('app', 'open', mk('sym', 'filename', 'str'), C('w')), 'obj', 'file'))
        c.same('the modified program goes to the chosen output and nowhere else', e.where, lift1(written_real, ev), one_file(out, text), care, detail=name)
        c.no_unsup(R)


def written_real(q):
    """texts written to real files (memory buffers left out)"""
    rows = event_rows(q)
    if rows is None:
        return mk('opaque', q)
    drop = {STDERR} | {r[1] for r in rows if kind_of(r) == 'write' and r[1].op == 'ref' and 'StringIO' in repr(r[1])[:14]}
    return written(q, drop)


PARTS = [save, generic, tools]
