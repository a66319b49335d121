"""C12: conversion to relative extrusion"""
from .common import *

FLT = 'gcodeutils.filter.relative_extrusion.GCodeToRelativeExtrusionFilter'
def spec_step(R, ln, mode, pos):
    """the reference: (advance or NONE, mode after, position after) of a line; mode is TRUE in relative extrusion"""
    cmd, e = R.attr(ln, 'command'), R.attr(ln, 'e')
    move = isin(cmd, MOVES)
    has = bnot(is_none_d(e))
    adv = lift2(lambda m, x: NONE if x is NONE else x if m is TRUE else padd(x, pos, -1), mode, e)
    mode2 = ite(isin(cmd, ('M83',)), TRUE, ite(isin(cmd, ('M82',)), FALSE, mode))
    en = lift1(lambda x: num(0) if x is NONE else x, e)
    epos = lift2(lambda m, x: padd(pos, x) if m is TRUE else x, mode, en)
    bare = is_none_d(e)
    for a in ('x', 'y', 'z'):
        bare = band(bare, is_none_d(R.attr(ln, a)))
    g92 = isin(cmd, ('G92',))
    pos2 = ite(band(move, has), epos, ite(g92, ite(has, en, ite(bare, num(0), pos)), pos))
    return ite(band(move, has), adv, e), mode2, pos2


def check_step(c, R, ln, res, before, raw, want_e, care, rule, w):
    """the answer of the rule for one line"""
    cmd = before['command']
    m82 = isin(cmd, ('M82',))
    ans = answers(R, res, ln)

    def shape(l):
        if l.op != 'tup' or len(l.args[0]) != 1:
            return FALSE
        return TRUE
    one = lift1(shape, ans)
    if not c.holds(rule + ': one line for one line', w, one, care, 'the answer is %s' % short(ans)):
        return
    out = lift1(lambda l: l.args[0][0] if l.op == 'tup' and len(l.args[0]) == 1 else NONE, ans)
    keep = band(care, bnot(m82))
    c.holds(rule + ': the line itself stays', w, lift1(lambda l: B(l is ln), out), keep)
    if keep is not FALSE:
        for a in COORDS + ['command']:
            want = want_e if a == 'e' else before[a]
            c.same(rule + ': %s' % ('E is the advance' if a == 'e' else a + ' unchanged'), w, R.attr(ln, a), want, keep)
        # text: regenerated exactly when E changed
        st = R.st
        ne = expected_with(R, before, raw, want_e)
        changed = lift2(lambda a, b: B(a is not b), constrain(before['e'], keep), constrain(want_e, keep))
        got = R.attr(ln, 'raw')
        had_e = band(isin(cmd, MOVES), bnot(is_none_d(before['e'])))
        fresh = lift2(lambda a, b: B(a is b or bool(same_text(a, b))), got, ne)
        c.same(rule + ': text unchanged', w, got, raw, band(keep, bnot(band(had_e, bor(changed, fresh)))))
        c.same(rule + ': text regenerated', w, got, ne, band(keep, changed), eq=same_text)
    rep = band(care, m82)
    if rep is not FALSE:
        st0 = R.st
        R.st = State(dict(st0.m), band(st0.pc, rep))
        ot = constrain(out, rep)
        good = lift1(lambda l: B(l.op == 'ref'), ot)
        if c.holds(rule + ': M82 is replaced by a line', w, good, rep):
            for l in leaves(ot):
                g = band(rep, lift1(lambda x: B(x is l), ot))
                c.same(rule + ': M82 becomes M83', w, R.attr(l, 'command'), C('M83'), g)
                c.same(rule + ': text of the M83', w, lift1(lambda t: strip_comment(t), R.attr(l, 'raw')), C('M83'), g)
        R.st = st0


def strip_comment(t):
    if t.op == 'c' and isinstance(t.args[1], str):
        return C(t.args[1].split(';')[0].strip())
    if t.op == 'cat' and t.args[0][0].op == 'c' and ';' in t.args[0][0].args[1]:
        return C(t.args[0][0].args[1].split(';')[0].strip())
    return t


def expected_with(R, before, raw, e):
    """text of a line regenerated from the given values"""
    t = mk('ref', mk('sym', 'expected', 'obj', LINE))
    st0 = R.st
    R.st = State(dict(st0.m), TRUE)
    for a in COORDS + ['command']:
        R.st.m[(t.args[0], a)] = before[a]
    R.st.m[(t.args[0], 'e')] = e
    try:
        return expected(R, t, raw)
    finally:
        R.st = st0


ATTRS = COORDS + ['command', 'raw']


def start(c):
    R = c.run()
    cls = c.need(R, FLT)
    w = c.where(R, FLT + '.opcode_filter')
    f = R.call(cls)
    if f is None:
        c.bad('a filter can be made', w, 'the constructor always raises')
        raise Undecided(FLT)
    return R, f, w


def induction(c):
    """one step from an arbitrary state related to the reference state"""
    R, f, w = start(c)
    attrs = state_attrs(R, f)
    bools = [a for a, v in attrs.items() if value_kind(v) == {'bool'}]
    nums = [a for a, v in attrs.items() if value_kind(v) == {'num'}]
    if len(bools) != 1 or len(nums) != 1:
        return
    b, n = bools[0], nums[0]
    mode, pos = lit(atom('true', sym('mode', 'bool'))), sym('pos', 'num')
    if pos.op != 'p':
        pos = poly_of(pos)
    if attrs[b] is not FALSE:
        mode_v = bnot(mode)
    else:
        mode_v = mode
    c.same('initial position is 0', w, attrs[n], num(0))
    R.st.m[(f.args[0], b)] = mode_v
    R.st.m[(f.args[0], n)] = pos
    ln = new_line(R, 'line')
    before = snapshot(R, ln, ATTRS)
    raw = before['raw']
    want_e, mode2, pos2 = spec_step(R, ln, mode, pos)
    st0 = State(dict(R.st.m), R.st.pc)
    res = R.method(f, 'opcode_filter', ln)
    c.seen(R)
    if res is None:
        c.bad('rule answers', w, 'the line rule always raises')
        return
    care = oblig_care(R, c, TRUE)
    for g, e, s, m in c.raises(R):
        c.never('no failure', str(s), g, e)
    check_step(c, R, ln, res, before, raw, want_e, care, 'any state', w)
    mv = R.attr(f, b)
    c.same('extrusion mode after the line', w, mv if mode_v is mode else bnot(mv), mode2, care)
    c.same('E position after the line', w, R.attr(f, n), pos2, care)
    c.no_unsup(R)


def history(c, k=2):
    """k lines from the initial state"""
    R, f, w = start(c)
    mode, pos = FALSE, num(0)
    care = TRUE
    for i in range(k):
        ln = new_line(R, 'line%d' % i)
        before = snapshot(R, ln, ATTRS)
        want_e, mode2, pos2 = spec_step(R, ln, mode, TRUE and pos) if pos.op == 'p' else spec_step_d(R, ln, mode, pos)
        res = R.method(f, 'opcode_filter', ln)
        if res is None:
            c.bad('rule answers', w, 'the line rule always raises')
            return
        care = oblig_care(R, c, care)
        st = R.st
        R.st = State(dict(st.m), st.pc)
        check_step(c, R, ln, res, before, before['raw'], want_e, care, 'line %d of a program' % (i + 1), w)
        R.st = st
        mode, pos = mode2, pos2
    c.seen(R)
    c.no_unsup(R)


def spec_step_d(R, ln, mode, pos):
    return lift_spec(R, ln, mode, pos)


def lift_spec(R, ln, mode, pos):
    """the reference step with a position that is itself a diagram"""
    es, ms, ps = None, None, None
    for l in leaves(pos):
        g = lift1(lambda x: B(x is l), pos)
        e, m, p = spec_step(R, ln, mode, l)
        es = e if es is None else ite(g, e, es)
        ms = m
        ps = p if ps is None else ite(g, p, ps)
    return es, ms, ps


EXPLANATION = ('The line rule of the relative extrusion filter is interpreted abstractly on an arbitrary line in an arbitrary filter state '
               '(inductive step against the reference extruder: mode and logical E position), and on the first lines of a program from the '
               'initial state. E, all other words, the regenerated text, the replacement of M82 and the state after the line are compared as '
               'gated value terms.')


def history2(c):
    history(c, 2)


def positioning(c):
    """G90/G91 also select the extrusion mode for the parser; a following absolute E must be read in that mode"""
    for cmd, relative in (('G91', True), ('G90', False)):
        R, f, w = start(c)
        if not relative:
            R.method(f, 'opcode_filter', new_line(R, 'before', command=C('M83')))
        R.method(f, 'opcode_filter', new_line(R, 'switch', command=C(cmd)))
        R.method(f, 'opcode_filter', new_line(R, 'first', command=C('G1'), e=sym('e0', 'num')))
        ln = new_line(R, 'second', command=C('G1'), e=sym('e1', 'num'))
        R.method(f, 'opcode_filter', ln)
        e0, e1 = poly_of(sym('e0', 'num')), poly_of(sym('e1', 'num'))
        c.same('extrusion mode selected by ' + cmd, w, R.attr(ln, 'e'), e1 if relative else padd(e1, e0, -1))
        c.seen(R)


PARTS = [induction, history2, positioning]
