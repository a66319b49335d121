"""C32: vector arithmetic"""
from .common import *
from ..ev import BI

V = 'gcodeutils.stretch.vector3.Vector3'
XYZ = ('x', 'y', 'z')
EXPLANATION = ('Every vector operation is interpreted abstractly on two arbitrary vectors and an arbitrary number (and with both operands the '
               'same vector); result components are rational functions of the operands and are compared in normal form with the textbook '
               'formulas; operands must be unchanged, in-place operations must return the same object, the others a new one.')


def SQRT(p):
    return Interp.sqrt(None, p)


def dotp(a, b):
    return padd(padd(pmul(a['x'], b['x']), pmul(a['y'], b['y'])), pmul(a['z'], b['z']))


def per(f):
    return lambda a, b, k: {t: f(a[t], b[t], k) for t in XYZ}


def cross(a, b, k):
    o = {}
    for t, (p, q) in {'x': 'yz', 'y': 'zx', 'z': 'xy'}.items():
        o[t] = padd(pmul(a[p], b[q]), pmul(a[q], b[p]), -1)
    return o


def normalized(a, b, k):
    m = SQRT(dotp(a, a))
    return {t: ite(eq_zero(m), a[t], pdiv(a[t], m)) for t in XYZ}


def reflect(a, b, k):
    d = pscale(dotp(a, b), 2)
    return {t: padd(a[t], pmul(d, b[t]), -1) for t in XYZ}


def diff2(a, b):
    d = {t: padd(a[t], b[t], -1) for t in XYZ}
    return dotp(d, d)


def floordiv(a, b):
    return num_app('floor', pdiv(a, b))


NEW = {
    'add': per(lambda a, b, k: padd(a, b)), 'sub': per(lambda a, b, k: padd(a, b, -1)),
    'mul': per(lambda a, b, k: pmul(a, k)), 'rmul': per(lambda a, b, k: pmul(a, k)),
    'truediv': per(lambda a, b, k: pdiv(a, k)), 'rtruediv': per(lambda a, b, k: pdiv(k, a)),
    'floordiv': per(lambda a, b, k: floordiv(a, k)), 'rfloordiv': per(lambda a, b, k: floordiv(k, a)),
    'neg': per(lambda a, b, k: neg(a)), 'pos': per(lambda a, b, k: a), 'copied': per(lambda a, b, k: a),
    'cross': cross, 'normalized': normalized, 'reflect': reflect,
}
SAME = {
    'iadd': NEW['add'], 'isub': NEW['sub'], 'imul': NEW['mul'], 'itruediv': NEW['truediv'], 'ifloordiv': NEW['floordiv'],
    'normalize': normalized, 'assign': per(lambda a, b, k: b),
    'maximize': per(lambda a, b, k: ite(lt_zero(padd(a, b, -1)), b, a)),
    'minimize': per(lambda a, b, k: ite(lt_zero(padd(a, b, -1)), a, b)),
}


def eqv(a, b):
    return band(*[eq_zero(padd(a[t], b[t], -1)) for t in XYZ])


VALUE = {
    'dot': lambda a, b: dotp(a, b), 'magnitude': lambda a, b: SQRT(dotp(a, a)),
    'magnitude2': lambda a, b: SQRT(dotp(a, a)), 'msquared': lambda a, b: dotp(a, a),
    'distance': lambda a, b: SQRT(diff2(a, b)), 'dsquared': lambda a, b: diff2(a, b),
    'equal': eqv, 'unequal': lambda a, b: bnot(eqv(a, b)),
    'is_zero': lambda a, b: band(*[eq_zero(a[t]) for t in XYZ]),
    'drop0': lambda a, b: mk('cx', a['y'], a['z']), 'drop1': lambda a, b: mk('cx', a['x'], a['z']),
    'drop2': lambda a, b: mk('cx', a['x'], a['y']), 'drop': lambda a, b: mk('cx', a['x'], a['y']),
}


def operations(c):
    R = c.run({V: {t: 'num' for t in XYZ}})
    c.need(R, V)
    R.I.load_file('gcvref_vec', os.path.join(os.path.dirname(os.path.dirname(__file__)), 'ref', 'vec.py'))
    k = poly_of(sym('k', 'num'))
    for alias in (False, True):
        for name in list(NEW) + list(SAME) + list(VALUE) + ['floats']:
            R.st = State()
            del R.I.obligs[:]
            a = R.obj('a', V)
            b = a if alias else R.obj('b', V)
            a0, b0 = snapshot(R, a, XYZ), snapshot(R, b, XYZ)
            w = '%s %s%s' % (c.where(R, V), name, ' (same operand twice)' if alias else '')
            res = R.call('gcvref_vec.' + name, a, b, k)
            if res is None:
                c.bad('operation is defined', w, '; '.join('%s at %s: %s' % (e, s, m) for g, e, s, m in c.raises(R)))
                continue
            care = TRUE
            for g, e, s, m in c.raises(R):
                if e == 'ZeroDivisionError' and ('div' in name):
                    zero = eq_zero(k) if not name.startswith('r') else bor(*[eq_zero(a0[t]) for t in XYZ])
                    c.never('fails only for a zero divisor', w, band(g, bnot(zero)), '%s at %s' % (e, s))
                    care = band(care, bnot(zero))
                else:
                    c.never('operation is defined', w, g, '%s at %s: %s' % (e, s, m))
                    care = band(care, bnot(g))
            if name in NEW:
                want = NEW[name](a0, b0, k)
                c.holds('a new vector is returned', w,
                        lift1(lambda l: B(l.op == 'ref' and l is not a and l is not b and R.I.class_of(l.args[0]) is not None and
                                          getattr(R.I.class_of(l.args[0]), 'qual', '') == V), res), care)
                for t in XYZ:
                    c.same('component %s' % t, w, lift1(lambda l: R.attr(l, t) if l.op == 'ref' else mk('opaque', l), res), want[t], care)
                    c.same('operands unchanged', w, R.attr(a, t), a0[t], care)
                    c.same('operands unchanged', w, R.attr(b, t), b0[t], care)
            elif name in SAME:
                want = SAME[name](a0, b0, k)
                c.holds('the same object is kept', w, lift1(lambda l: B(l is a), res), care)
                for t in XYZ:
                    c.same('component %s in place' % t, w, R.attr(a, t), want[t], care)
                    if not alias:
                        c.same('other operand unchanged', w, R.attr(b, t), b0[t], care)
            elif name == 'floats':
                q = lift1(lambda l: R.I.content(R.st, l) if l.op == 'ref' and R.I.is_listlike(l) else l, res)
                c.same('components as a list', w, q, seq(*[a0[t] for t in XYZ]), care)
            else:
                c.same('value', w, res, VALUE[name](a0, b0), care)
                for t in XYZ:
                    c.same('operands unchanged', w, R.attr(a, t), a0[t], care)
                    c.same('operands unchanged', w, R.attr(b, t), b0[t], care)
    c.seen(R)
    c.no_unsup(R)


def construction(c):
    """components not given are zero"""
    R = c.run()
    c.need(R, V)
    k = {t: poly_of(sym(t, 'num')) for t in XYZ}
    for n in range(4):
        for named in (False, True):
            R.st = State()
            v = R.call(V, **{t: k[t] for t in XYZ[:n]}) if named else R.call(V, *[k[t] for t in XYZ[:n]])
            if v is None or v.op != 'ref':
                c.bad('a vector can be made', c.where(R, V), 'of %d components' % n)
                continue
            for i, t in enumerate(XYZ):
                c.same('component %s of a new vector' % t, c.where(R, V), R.attr(v, t), k[t] if i < n else num(0), detail='%d given' % n)
    c.seen(R)
    c.no_unsup(R)


PARTS = [construction, operations]
