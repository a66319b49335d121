"""C17: what stretching may alter"""
from .stretch import *
from .c26 import words

EXPLANATION = ('The whole run of each stretch filter after its preparation is interpreted on programs of one or two layers of arbitrary lines, with an arbitrary stretch '
               'of each point. On every path the program keeps its layers and the number of its lines; each line that is not the one that was there is a straight '
               'move naming X or Y after the start marker and before the stop marker of a loop; its command, Z and feed rate, and the Z and F words '
               'of its text, are those it had. Lines that stay keep their text and words. The preparation is left out here (C18).')
SHAPES = [(1,), (2,), (1, 1), (3,)]
FIXED = ('command', 'z', 'f')


def run(c):
    for cls in DIALECTS:
        for shape in SHAPES:
            c.attempt('%s %s' % (cls, shape), one, c, cls, shape)


def one(c, cls, shape):
    s = Stretch(c, cls)
    if not s.ok:
        return
    R = s.R
    name = '%s, layers of %s lines' % (cls.split('.')[-1], ' '.join(str(k) for k in shape))
    R.st = State(dict(s.start.m), s.start.pc)
    f, _ = R.I.cls_attr(None, s.cls, 'setup_filter')
    if f is None or f.op != 'fn':
        c.undecided('analysis', cls, 'no setup_filter')
        return
    R.I.intrinsics[f.args[0].qual] = lambda I, st, args, kw, n: NONE
    # reading a line again from its text is left out: what comes out is judged by its text
    R.I.intrinsics['gcodeutils.gcoder.split'] = lambda I, st, args, kw, n: I.new_list(st, EMPTYSEQ)
    R.I.intrinsics['gcodeutils.gcoder.parse_coordinates'] = lambda I, st, args, kw, n: NONE
    order, layers = [], []
    for i, k in enumerate(shape):
        # in longer programs all lines but the last are markers or moves
        ls = []
        for j in range(k):
            last = i == len(shape) - 1 and j == k - 1
            kw = {} if sum(shape) < 3 or last else {'command': NONE} if j == 0 else {'command': C('G1')}
            ls.append(new_line(R, 'l%d_%d' % (i, j), **kw))
        order += ls
        layers.append(R.obj('layer%d' % i, LAYER, **{'$seq': seq(*ls)}))
    allv = R.I.new_list(R.st, seq(*layers))
    g = R.obj('program', GC, all_layers=allv)
    attrs = COORDS + ['command', 'raw']
    before = {l: snapshot(R, l, attrs) for l in order}
    raws = [before[l]['raw'] for l in order]
    care = band(one_marker(raws), s.facts)
    R.st.pc = care
    n0 = len(R.I.obligs)
    R.method(s.obj, 'filter', g)
    del n0
    care = oblig_care(R, c, care)
    w = s.where
    got = R.attr(g, 'all_layers')
    tops = R.I.content(R.st, got)
    if tops is None or any(l.op != 'seq' for l in leaves(tops)):
        c.undecided('the layers stay', w, name)
        return
    k = 0
    for i, n in enumerate(shape):
        def pick(q, i=i):
            return q.args[0][i].args[0] if len(q.args[0]) == len(shape) and all(p.op == 'e' for p in q.args[0]) else NONE
        lay = lift1(pick, tops)
        c.never('the layers stay', w, band(care, lift1(lambda x: B(x is not layers[i] and not same_kind(R, x)), lay)), name)
        cont = lift1(lambda x: R.I.content(R.st, x) if x.op == 'ref' else NONE, lay)
        for j in range(n):
            def elem(q, j=j):
                return q.args[0][j].args[0] if q.op == 'seq' and len(q.args[0]) == n and all(p.op == 'e' for p in q.args[0]) else UNDEF
            v = lift1(elem, cont)
            judge(c, s, order[k], v, before, care, loop_kind(raws[:k + 1]), '%s, line %d' % (name, k))
            k += 1
    c.seen(R)
    c.no_unsup(R)


def same_kind(R, x):
    return x.op == 'ref' and R.I.is_listlike(x)


def judge(c, s, ln, v, before, care, kind, what):
    R, w = s.R, s.where
    b = before[ln]
    move = isin(b['command'], ('G0', 'G1'))
    named = bnot(band(is_none_d(b['x']), is_none_d(b['y'])))
    inside = lift1(lambda k: B(k is not NONE), kind)
    c.never('the number of lines stays', w, band(care, lift1(lambda x: B(x.op != 'ref'), v)), what)
    changed = FALSE
    for l in sorted(leaves(constrain(v, care)), key=lambda x: x.id):
        if l.op != 'ref':
            continue
        g = band(care, lift1(lambda x: B(x is l), v))
        if g is FALSE:
            continue
        raw = R.attr(l, 'raw')
        for a in FIXED:
            c.same('command, Z and feed rate stay', w, R.attr(l, a), b[a], g, detail='%s: %s' % (what, a))
        for t in sorted(leaves(constrain(raw, g)), key=lambda x: x.id):
            gt = band(g, lift1(lambda x: B(x is t), raw))
            if gt is FALSE or any(t is x for x in leaves(b['raw'])) and band(gt, differs(raw, b['raw'])) is FALSE:
                continue
            changed = bor(changed, gt)
            head, rest = split_head(t)
            ws = words(rest)
            if ws is None:
                c.undecided('the text', w, '%s: %s' % (what, short(t)))
                continue
            ws = ws[1]
            for a, letter in (('z', 'Z'), ('f', 'F')):
                has = letter in ws
                rule = 'the text has the Z and F words of the line'
                c.never(rule, w, band(gt, is_none_d(b[a]) if has else bnot(is_none_d(b[a]))), '%s: %s' % (what, letter))
                if has:
                    c.same(rule, w, ws[letter], b[a], band(gt, bnot(is_none_d(b[a]))), detail='%s: %s' % (what, letter))
            c.holds('the text has the command of the line', w, isin(b['command'], (head,)) if isinstance(head, str) else lift1(lambda x: B(x is head), b['command']),
                    gt, what)
        if l is not ln:
            changed = bor(changed, g)
    c.never('only straight moves naming X or Y are altered', w, band(changed, bnot(band(move, named))), what)
    c.never('only moves inside marked loops are altered', w, band(changed, bnot(inside)), what)


def split_head(t):
    """the first word of a text, and the rest with a word in front"""
    ps = list(t.args[0]) if t.op == 'cat' else [t]
    if ps and ps[0].op == 'c':
        return (ps[0].args[1].split() or [''])[0], t
    return ps[0], strcat([C('G1')] + ps[1:])


PARTS = [run]
