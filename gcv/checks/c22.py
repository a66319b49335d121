"""C22: start, end and steps of the gradient"""
from .. import alg
from .temp import *

EXPLANATION = ('Both gradient classes are interpreted writing programs of bounded shapes with arbitrary heights, and one arbitrary layer from an arbitrary '
               'state left by other layers. The condition under which each layer gets a command and the value commanded are compared, as gated terms '
               'over heights and settings, with the documented gradient: the line from start to end between the lowest layer above the minimum '
               'height and the top, or its value rounded down to one of the steps. The condition of refusal is compared with its definition.')


def lo(a, b):
    return ite(lt_zero(padd(a, b, -1)), a, b)


def hi(a, b):
    return ite(lt_zero(padd(a, b, -1)), b, a)


def target(kind, t, z, bottom):
    """documented temperature at height z"""
    span = padd(t.top, bottom, -1)
    part = pdiv(padd(z, bottom, -1), span)
    if kind == 'continuous':
        return padd(t.start, pmul(padd(t.end, t.start, -1), part))
    k = whole('int', pmul(part, padd(t.steps, num(1))))
    v = padd(t.start, pdiv(pmul(k, padd(t.end, t.start, -1)), t.steps))

    def clamp(x):
        return lift2(lambda a, b: hi(a, b), lo(t.end, t.start), lift2(lo, hi(t.end, t.start), x))
    return lift1(clamp, v)


def expected(kind, t, zm, last):
    """(condition of refusal, [value commanded in front of each layer, NONE if none])"""
    bottom = zm
    for z in t.z:
        if z is None:
            continue
        bottom = lift2(lambda a, b: a if b is NONE else ite(lt_zero(padd(t.minz, b, -1)), b if a is NONE else lo(a, b), a), bottom, z)
    refused = lift1(lambda b: TRUE if b is NONE else bnot(lt_zero(padd(b, t.top, -1))), bottom)
    out = []
    for z in t.z:
        if z is None:
            out.append(NONE)
            continue
        active = lift2(lambda b, x: FALSE if b is NONE or x is NONE else band(bnot(lt_zero(padd(x, b, -1))), bnot(lt_zero(padd(t.top, x, -1)))), bottom, z)
        active = band(bnot(refused), active)
        r = lift1(lambda on: NONE if on is FALSE else lift2(lambda b, x: NONE if b is NONE or x is NONE else lift1(lambda v: round_to(v, 1), target(kind, t, x, b)), bottom, z), active)
        use = lift2(lambda v, l: FALSE if v is NONE else band(TRUE if l is NONE else bnot(eq_zero(padd(v, l, -1))), bnot(beyond(v))), r, last)
        out.append(ite(use, r, NONE))
        last = ite(active, r, last)
    return refused, out


def beyond(v):
    return bor(lt_zero(padd(v, num(LOW), -1)), lt_zero(padd(num(HIGH), v, -1)))


def got(parts, j):
    def f(l):
        if l.op == 'opaque' or l.args[0] and l.args[0][0].op != 'tup':
            return mk('opaque', l)
        v = command(l.args[0][j])
        if v.op == 'opaque' or v is NONE:
            return v
        return lift1(lambda x: rounded(x, v.args[0][2]), v.args[0][1])
    return lift1(f, parts)


def truncated(v):
    """floor taken for int: they are the same above the lowest layer"""
    zs = {x: poly_of(x) for x in syms(v) if x.op == 'sym' and x.args[1] == 'num'}
    old = alg._hooks['floor']
    alg._hooks['floor'] = alg._hooks['int']
    try:
        return subst(v, zs)
    finally:
        alg._hooks['floor'] = old


SETTINGS = [dict(start=240, end=200, steps=10), dict(start=200, end=240, steps=4), dict(start=210, end=210, steps=3), dict(start=300, end=100, steps=5),
            dict(start=200, end=190, steps=1), dict(start=241, end=233, steps=7)]


def cases(c):
    h = lambda x: num(x)
    z = poly_of(sym('z', 'num'))
    for kind, cls in KINDS:
        todo = []
        # this layer is the lowest one: any settings
        todo += [((1,), None, None, {}), ((0, 1), None, None, {})]
        # another layer is the lowest one (given bottom), this one is anywhere
        for s in SETTINGS:
            todo.append(((1,), None, h('0.3'), dict(s, minz=h('0.25'), top=h('10.3'))))
        todo.append(((1,), None, h('1'), dict(SETTINGS[0], minz=h('0.25'), top=h('5'))))
        # first layers
        todo.append(((1, 1), [h('0.3'), None], None, dict(SETTINGS[0], minz=h('0.25'), top=h('10.3'))))
        todo.append(((1, 1), [None, h('0.3')], None, dict(SETTINGS[1], minz=h('0.25'), top=h('10.3'))))
        todo.append(((1, 0, 1, 1), [h('0.1'), None, h('0.4'), None], None, dict(SETTINGS[5], minz=h('0.1'), top=h('2'))))
        if kind == 'continuous':
            todo.append(((1,), None, nullable(sym('zm', 'num'), 'num'), {}))
            todo.append(((1, 1), None, None, dict(SETTINGS[0], minz=h('0.25'))))
        for shape, zs, zm, kw in todo:
            c.attempt('%s %s' % (kind, list(shape)), case, c, kind, cls, shape, zs, zm, kw)


def case(c, kind, cls, shape, zs, zm, kw):
    before = None
    last = NONE
    if zm is not None:
        last = nullable(sym('last', 'num'), 'num')
        before = {'zmin': zm, 'last_target_temperature': last}
    t = Temp(c, cls, shape, zs=zs, before=before, **kw)
    if not t.ok:
        return
    R = t.R
    what = '%s, layers of %s lines' % (kind, list(shape)) + (', another layer at %s' % zm if zm is not None else '') + (', ' + ', '.join('%s=%s' % x for x in sorted(kw.items())) if kw else '')
    zm = NONE if zm is None else zm
    refused, want = expected(kind, t, zm, last)
    care = bnot(lt_zero(padd(t.steps, num(1), -1)))
    care = band(care, bnot(lt_zero(t.minz)))
    # the other layer is above the minimum height; heights repeat at most to the given bottom
    care = band(care, lift1(lambda b: TRUE if b is NONE else lt_zero(padd(t.minz, b, -1)), zm))
    if kind == 'stepped' and 'top' in kw:
        # the lowest layer is a given one: its height is a number
        given = [x for x in [zm] + list(zs or []) if x is not None and x.op == 'p' and is_num_const(x)]
        if given:
            b = min(num_val(x) for x in given if num_val(x) > num_val(t.minz))
            for x in t.z:
                if x is not None:
                    care = band(care, lift1(lambda v: TRUE if v is NONE else bor(bnot(lt_zero(padd(v, num(b), -1))), bnot(lt_zero(padd(t.minz, v, -1)))), x))
    raised = FALSE
    for g, e, s, m in c.raises(R) + [(p[0], p[1], None, '') for p in R.I.pend]:
        if e == 'ZeroDivisionError' and c_never(c, band(care, g)):
            continue
        raised = bor(raised, g)
    c.same('refused exactly without room above the minimum height', t.where, band(care, raised), band(care, refused), detail=what)
    care = band(care, band(bnot(refused), R.st.pc))
    parts = t.parts()
    for j in range(len(shape)):
        g = got(parts, j)
        if any(l.op == 'opaque' for l in leaves(constrain(g, care))):
            c.undecided('the temperature commanded', t.where, what + ': text not understood')
            continue
        c.same('the temperature commanded', t.where, truncated(constrain(g, care)), truncated(constrain(want[j], care)), care, detail='%s, layer %d' % (what, j))


def c_never(c, g):
    from ..report import feasible
    for lits, leaf in paths(g, lambda l: l is TRUE, 400):
        if feasible(lits):
            return False
    return True


PARTS = [cases]
