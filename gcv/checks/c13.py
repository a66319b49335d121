"""C13: pauses at layers"""
from .c03 import *
from .c03 import parse as read
from .c15 import raw_table, concrete, only
from .entry import ITER

EXPLANATION = ('Programs with printed, unprinted, empty and returning layers are read and visited by PauseAtLayer for arbitrary layer numbers; '
               'the program that comes out (a decision diagram over the numbers asked for) is compared with the lines of before and one pause command '
               'in front of the first printed layer of each number asked for. The same object is also used on a second program.')
PAUSE = 'gcodeutils.visit.pause_at_layer.PauseAtLayer'
COMMANDS = ('M226', 'M0', 'M1', 'M25', 'M600', 'M601')
TEXTS = [['G1 X1'],
         ['G28', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', 'M107'],
         ['G1 Z5', 'G1 X2', 'G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', ';', 'G1 Z0.2', 'G1 X3 E3', 'G1 Z9', 'G1 X4'],
         ['G1 Z0.2', 'G1 X1 E1', 'G1 Z0.4', 'G1 X2 E2', 'G1 Z0.2', 'G1 X3 E3', 'G1 Z0.4', 'G1 X3 E4', 'G1 Z0.6', 'G1 X3 E5'],
         ['G1 Z0.9', 'G1 X1 E1', 'G1 Z0.3', 'G1 X1 E2', 'G1 Z0.6', 'G1 X1 E3', 'G1 Z0.7', 'G1 X2']]


def layers_of(c, R, g):
    """[(printed number or None)] per layer, and the tables of before"""
    tab = layer_table(R, g)
    if not concrete(tab):
        return None
    zs = R.I.content(R.st, R.attr(g, 'all_zs'))
    ls = R.I.content(R.st, R.attr(g, 'all_layers'))
    if zs.op != 'seq' or any(p.op != 'e' for p in zs.args[0]) or any(p.op != 'e' for p in ls.args[0]):
        return None
    heights = [p.args[0] for p in zs.args[0] if p.args[0] is not NONE]
    if not all(is_num_const(z) for z in heights):
        return None
    order = sorted(heights, key=num_val)
    nums = []
    for p in ls.args[0]:
        z = R.attr(p.args[0], 'z')
        nums.append(order.index(z) if z in order else None)
    return nums, tab, raw_table(R, tab)


def asked(R, ps):
    return R.I.new_list(R.st, seq(*ps))


def judge(c, R, g, w, before, ps, what, care):
    nums, tab, raws = before
    now = layer_table(R, g)
    olds = {x for l in tab.args[0] for x in l.args[0]}
    c.same('all other lines stay', w, only(now, olds), tab, care, detail=what)
    want = mk('tup', ())
    seen = set()
    mark = C('(pause)')
    for k, l in zip(nums, raws.args[0]):
        hit = FALSE
        if k is not None and k not in seen:
            seen.add(k)
            for p in ps:
                hit = bor(hit, eq_zero(padd(p, num(k), -1)))
        row = ite(hit, mk('tup', (mark,) + l.args[0]), l)
        want = lift2(lambda a, b: mk('tup', a.args[0] + (b,)), want, row)

    def marked(t):
        if not concrete(t):
            return t
        return mk('tup', tuple(mk('tup', tuple(mark if x.op == 'c' and x.args[1] in COMMANDS else x for x in l.args[0])) for l in t.args[0]))
    c.same('one pause at the start of each layer asked for', w, lift1(marked, raw_table(R, now)), want, care, detail=what)
    verify(c, R, g, w, what, None, care)


def visit(c, R, g, v, w, what):
    it = R.get(ITER)
    i = R.call(it, g) if it is not None else None
    if i is None or i.op != 'ref':
        c.undecided('walk', w, what)
        return False
    R.method(i, 'accept', v)
    return True


def sets():
    p, q = poly_of(sym('p', 'int')), poly_of(sym('q', 'int'))
    return [('nothing', []), ('p', [p]), ('p, q', [p, q]), ('0, p', [num(0), p]), ('p, p', [p, p])]


def pauses(c):
    for lines in TEXTS:
        for label, ps in sets():
            R = c.run()
            c.need(R, GC)
            w = c.where(R, PAUSE + '.did_visit_layer')
            g, raws = read(c, R, lines)
            k = R.get(PAUSE)
            before = layers_of(c, R, g)
            what = 'parsing %s, pausing at %s' % (' / '.join(lines), label)
            if k is None or before is None:
                c.undecided('pause', w, what)
                continue
            v = R.call(k, asked(R, ps))
            if v is None or not visit(c, R, g, v, w, what):
                continue
            care = TRUE
            judge(c, R, g, w, before, ps, what, care)
            for gd, e, s, m in c.raises(R):
                c.never('no failure', str(s), gd, '%s: %s' % (e, what))
            c.seen(R)
            c.no_unsup(R)


def again(c):
    """the same object on a second program"""
    for first, second in ((TEXTS[1], TEXTS[2]), (TEXTS[2], TEXTS[1]), (TEXTS[3], TEXTS[3])):
        R = c.run()
        c.need(R, GC)
        w = c.where(R, PAUSE + '.did_visit_layer')
        k = R.get(PAUSE)
        if k is None:
            return
        g, raws = read(c, R, first)
        ts = [text(s, 'b%d' % i) for i, s in enumerate(second)]
        h = R.call(GC, R.I.new_list(R.st, seq(*ts)))
        ps = [poly_of(sym('p', 'int')), num(1)]
        b1, b2 = layers_of(c, R, g), layers_of(c, R, h)
        what = 'parsing %s and %s, pausing both at p and 1' % (' / '.join(first), ' / '.join(second))
        if b1 is None or b2 is None:
            c.undecided('pause', w, what)
            continue
        v = R.call(k, asked(R, ps))
        if v is None or not visit(c, R, g, v, w, what) or not visit(c, R, h, v, w, what):
            continue
        judge(c, R, g, w, b1, ps, 'first program, ' + what, TRUE)
        judge(c, R, h, w, b2, ps, 'second program, ' + what, TRUE)
        for gd, e, s, m in c.raises(R):
            c.never('no failure', str(s), gd, '%s: %s' % (e, what))


PARTS = [pauses, again]
