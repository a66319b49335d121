"""C15: editing a layer"""
from .c03 import *
from .c03 import parse as read

EXPLANATION = ('Programs of up to four layers of different sizes are read, then commands (fixed, with arbitrary numbers, arbitrary text, blanks) '
               'prepended to or put in the place of each of their layers, also repeatedly; the layers that come out (a decision diagram '
               'over the texts) are compared with the lines of before at their places plus the given commands without blanks and margins in '
               'the order given, the flat program with the layers one after the other, and the lookups with the place of every line.')
TEXTS = [[], ['M226'], ['M226', 'G1 X#'], [' ', 'M1', '', ' G1 X# E# ', '; c', '\t'], ['*'], ['M1', '*', 'T#'], [' ', '']]
PROGRAMS = [('one layer', ['G1 X#', 'G1 Y#']), ('one line', ['G1 X#']),
            ('two layers', ['G28', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2', 'G1 X3 E#']),
            ('three layers', ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2', ';', 'G1 Z0.6', 'G1 X# E3', 'M107']),
            ('back to a height', ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X# E2', 'G1 Z0.2', 'G1 X3 E#', 'G1 X4'])]


def commands(ts, tag):
    out = []
    for i, s in enumerate(ts):
        out.append(mk('sym', '%s.%d' % (tag, i), 'str') if s == '*' else text(s, '%s%d' % (tag, i)))
    return out


def wanted(R, ts, tag):
    """diagram of the tuple of texts the commands become"""
    r = mk('tup', ())
    for i, s in enumerate(ts):
        if s == '*':
            v = app('strip', mk('sym', '%s.%d' % (tag, i), 'str'))
            r = lift2(lambda t, b: t if b is TRUE else mk('tup', t.args[0] + (v,)), r, str_test('streq', v, ''))
        elif stripped(s):
            v = text(stripped(s), '%s%d' % (tag, i))
            r = lift1(lambda t: mk('tup', t.args[0] + (v,)), r)
    return r


def concrete(t):
    return t.op == 'tup' and all(l.op == 'tup' for l in t.args[0])


def raw_table(R, tab):
    """layers as tuples of (line, text)"""
    def f(t):
        if not concrete(t):
            return t
        out = mk('tup', ())
        for l in t.args[0]:
            r = mk('tup', ())
            for x in l.args[0]:
                r = lift2(lambda a, b: mk('tup', a.args[0] + (b,)), r, R.attr(x, 'raw'))
            out = lift2(lambda a, b: mk('tup', a.args[0] + (b,)), out, r)
        return out
    return lift1(f, tab)


def only(tab, olds):
    """layers with lines other than those of before left out"""
    return lift1(lambda t: t if not concrete(t) else mk('tup', tuple(mk('tup', tuple(x for x in l.args[0] if x in olds)) for l in t.args[0])), tab)


def edit(c, R, g, w, op, j, ts, tag, what, care):
    tab = layer_table(R, g)
    if not concrete(tab) and any(not concrete(l) for l in leaves(tab)):
        c.undecided('layers', w, what)
        return False
    raws = raw_table(R, tab)
    olds = {x for t in leaves(tab) if concrete(t) for l in t.args[0] for x in l.args[0]}
    new = wanted(R, ts, tag)
    R.method(g, op, R.I.new_list(R.st, seq(*commands(ts, tag))), num(j))
    now = layer_table(R, g)
    fresh = op == 'prepend_to_layer'

    def put(t, v):
        if not concrete(t) or j >= len(t.args[0]):
            return t
        ls = list(t.args[0])
        ls[j] = mk('tup', v.args[0] + (ls[j].args[0] if fresh else ()))
        return mk('tup', tuple(ls))
    c.same('the commands of the layers', w, raw_table(R, now), lift2(put, raws, new), care, detail=what)

    shapes = [stripped(s) for s in ts if s != '*' and stripped(s)]
    if '*' not in ts:
        for k, s in enumerate(shapes):
            word = s.split()[0]
            if not (word[:1] in 'GM' and word[1:].isdigit()):
                continue

            def command(t):
                return R.attr(t.args[0][j].args[0][k], 'command') if concrete(t) and j < len(t.args[0]) and k < len(t.args[0][j].args[0]) else NONE
            c.same('the commands put there are read like any other line', w, lift1(command, now), C(word), care, detail=what)

    def keep(t):
        if not concrete(t) or fresh:
            return t
        return mk('tup', tuple(mk('tup', ()) if k == j else l for k, l in enumerate(t.args[0])))
    c.same('the other lines are the same lines', w, only(now, olds), lift1(keep, tab), care, detail=what)
    verify(c, R, g, w, what, None, care)
    return True


def run_edits(c, label, shapes, edits):
    R = c.run()
    c.need(R, GC)
    g, raws = read(c, R, shapes)
    names = {'prepend_to_layer': 'prepending', 'rewrite_layer': 'replacing'}
    what = label
    for k, (op, j, ts) in enumerate(edits):
        what += ', %s layer %d with %s' % (names[op], j, ' / '.join(repr(s) for s in ts) or 'nothing')
        w = c.where(R, GC + '.' + op)
        if not edit(c, R, g, w, op, j, ts, 'c%d' % k, what, oblig_care(R, c, TRUE)):
            break
    for gd, e, s, m in c.raises(R):
        c.never('no failure', str(s), gd, '%s (%s)' % (e, what))
    c.seen(R)
    c.no_unsup(R)


def count_layers(c, shapes):
    R = c.run()
    c.need(R, GC)
    g, raws = read(c, R, shapes)
    t = layer_table(R, g)
    return [bool(l.args[0]) for l in t.args[0]] if concrete(t) else None


def single(c):
    for label, shapes in PROGRAMS:
        ls = count_layers(c, shapes)
        if ls is None:
            c.undecided('layers', 'gcodeutils/gcoder.py', label)
            continue
        for op in ('prepend_to_layer', 'rewrite_layer'):
            for j in range(len(ls)):
                if ls[j]:
                    for ts in TEXTS:
                        c.attempt(label, run_edits, c, label, shapes, [(op, j, ts)])


def repeated(c):
    P, W = 'prepend_to_layer', 'rewrite_layer'
    for label, shapes in PROGRAMS[2:]:
        ls = count_layers(c, shapes)
        if ls is None:
            continue
        full = [j for j, x in enumerate(ls) if x]
        for a in full:
            for b in full:
                for ops in ((P, P), (P, W), (W, P), (W, W)):
                    c.attempt(label, run_edits, c, label, shapes, [(ops[0], a, ['M1', 'G1 X#']), (ops[1], b, ['M2', ' ', 'M3'])])
        c.attempt(label, run_edits, c, label, shapes, [(P, j, ['M1', 'M2']) for j in full] + [(W, j, ['M3', 'G1 X#', 'M4']) for j in full[::-1]])


PARTS = [single, repeated]
