"""C21: no temperature outside of 150-250 degrees"""
from .temp import *

EXPLANATION = ('Both gradient classes are interpreted writing programs of bounded shapes with arbitrary heights, and one arbitrary layer from an arbitrary '
               'state left by other layers, for arbitrary start and end temperatures, step counts and bounds. Every text written before a layer is '
               'parsed as a set-temperature command; its value, rounded as written, is shown to be from 150 to 250 on every path.')


def limits(c):
    for kind, cls in KINDS:
        cases = [((1,), None, {}), ((2,), None, {})]
        if kind == 'continuous':
            cases += [((1, 1), None, {}), ((0, 1), None, {})]
        else:
            cases += [((0, 1), None, {}), ((1, 1), None, {'top': 10, 'minz': num('0.1'), 'steps': 4}), ((1, 1), None, {'top': 10, 'start': 300, 'end': 100})]
        last = nullable(sym('last', 'num'), 'num')
        zm = nullable(sym('zm', 'num'), 'num')
        other = {'zmin': zm, 'last_target_temperature': last}
        if kind == 'continuous':
            cases += [((1,), other, {})]
        else:
            cases += [((1,), {'zmin': num('0.3'), 'last_target_temperature': last}, {'minz': num('0.2'), 'top': 12}), ((1,), other, {'start': 300, 'end': 140, 'steps': 5})]
        for shape, before, kw in cases:
            c.attempt('%s %s' % (kind, list(shape)), case, c, kind, cls, shape, before, kw, secs=100)


def case(c, kind, cls, shape, before, kw):
    t = Temp(c, cls, shape, before=before, **kw)
    what = '%s, layers of %s lines' % (kind, list(shape)) + (', any other layers' if before else '') + (', ' + ', '.join('%s=%s' % x for x in sorted(kw.items())) if kw else '')
    if not t.ok:
        return
    parts = t.parts()
    rule = 'commanded temperatures are from %d to %d' % (LOW, HIGH)

    def wrong(l):
        if l.op == 'opaque':
            return mk('opaque', l)
        out = FALSE
        for h in l.args[0]:
            if h.op != 'tup':       # lines out of order: another property
                return FALSE
            v = command(h)
            if v.op == 'opaque':
                return v
            if v is not NONE:
                w = lift1(lambda x: outside(x, v.args[0][2]), v.args[0][1])
                out = w if out is FALSE else lift2(lambda a, b: a if a.op == 'opaque' else b if b.op == 'opaque' else B(a is TRUE or b is TRUE), out, w)
        return out
    bad = lift1(wrong, parts)
    if any(l.op == 'opaque' for l in leaves(bad)):
        c.undecided(rule, t.where, what + ': text not understood')
        return
    bad = band(t.R.st.pc, bad)
    if bad is FALSE:
        c.ok(rule, t.where, what)
    else:
        c.never(rule, t.where, bad, what)


def outside(x, spec):
    """condition: x, written with the format, is out of the limits"""
    r = rounded(x, spec)
    if r.op == 'opaque' or x.op != 'p':
        return mk('opaque', x)
    out = band(beyond(r), beyond(x))
    k = inner(r)
    while k is not None and k[1] >= 0:      # rounding to digits keeps whole numbers: bounds of the value bound the rounded one
        out = band(out, beyond(k[0]))
        k = inner(k[0])
    return out


def beyond(v):
    return bor(lt_zero(padd(v, num(LOW), -1)), lt_zero(padd(num(HIGH), v, -1)))


PARTS = [limits]
