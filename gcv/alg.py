"""Value algebra of the analyser: hash-consed canonical terms.

A value is either a leaf (constant, polynomial, string concatenation, tuple, sequence, reference, opaque term ...) or a
decision node Ite(atom, hi, lo) over ordered atoms (an algebraic decision diagram).  Equality of values is identity.
Real arithmetic with exact rationals stands for floating point arithmetic.
"""
from fractions import Fraction
import sys
import time

sys.setrecursionlimit(20000)


class Limit(Exception):
    """the analysis met a resource limit: no verdict"""


class TimeLimit(Limit):
    pass


DEADLINE = [None]
_tick = [0]


def tick():
    if DEADLINE[0] is not None and time.monotonic() > DEADLINE[0]:
        raise TimeLimit('out of time')


class N(object):
    __slots__ = ('op', 'args', 'id', 'sup', '_syms', '__weakref__')

    def __repr__(self):
        return show(self)


class Atom(object):
    __slots__ = ('kind', 'args', 'id', 'grp', '_syms')

    def __repr__(self):
        return show_atom(self)


_tab = {}
_atab = {}
_n = [0]
EMPTY = frozenset()


def reset():
    """forget everything (between independent analyses)"""
    _tab.clear()
    _atab.clear()
    for m in _memos:
        m.clear()


_memos = []


def memo():
    d = {}
    _memos.append(d)
    return d


MAXTERMS = 4000000


def mk(op, *args):
    k = (op,) + args
    r = _tab.get(k)
    _tick[0] += 1
    if not _tick[0] & 0xfff:
        tick()
    if r is None:
        r = N()
        r.op = op
        r.args = args
        _n[0] += 1
        r.id = _n[0]
        r._syms = None
        if op == 'ite':
            r.sup = args[1].sup | args[2].sup | {args[0]}
        else:
            r.sup = EMPTY
        _tab[k] = r
        if len(_tab) > MAXTERMS:
            raise Limit('term table')
    return r


# ---------------------------------------------------------------- constants

class _Cst(object):
    pass


def C(v):
    """non numeric constant"""
    return mk('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ABSENT = mk('absent')
UNDEF = mk('undef')
ELLIPSIS = mk('ellipsis')


def _re_static():
    for x in (NONE, TRUE, FALSE, ABSENT, UNDEF, ELLIPSIS):
        _tab[(x.op,) + x.args] = x


def is_const(v):
    return v.op == 'c' or (v.op == 'p' and is_num_const(v))


def S(v):
    return C(str(v))


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- polynomials
# ('p', ((mono, coef), ...)) ; mono = ((N, power), ...) sorted by N.id

def _mkpoly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    items.sort(key=lambda mc: (-sum(p for _, p in mc[0]), tuple((n.id, -p) for n, p in mc[0])))
    return mk('p', tuple(items))


def num(v):
    if isinstance(v, float):
        if v != v:
            return mk('app', 'nan')
        if v in (float('inf'), float('-inf')):
            inf = poly_of(mk('app', 'inf'))
            return inf if v > 0 else neg(inf)
        v = Fraction(repr(v))
    return _mkpoly({(): Fraction(v)})


def poly_of(n):
    if n.op == 'p':
        return n
    return _mkpoly({((n, 1),): Fraction(1)})


def is_num_const(v):
    return v.op == 'p' and (not v.args[0] or (len(v.args[0]) == 1 and v.args[0][0][0] == ()))


def num_val(v):
    if not v.args[0]:
        return Fraction(0)
    return v.args[0][0][1]


def padd(a, b, kb=1):
    d = dict(a.args[0])
    for m, c in b.args[0]:
        d[m] = d.get(m, 0) + c * kb
    return _mkpoly(d)


def neg(a):
    return _mkpoly({m: -c for m, c in a.args[0]})


def pscale(a, k):
    return _mkpoly({m: c * k for m, c in a.args[0]})


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for n, p in a:
        d[n] = d.get(n, 0) + p
    for n, p in b:
        d[n] = d.get(n, 0) + p
    return tuple(sorted(((n, p) for n, p in d.items() if p), key=lambda x: x[0].id))


def pmul(a, b):
    d = {}
    if len(a.args[0]) * len(b.args[0]) > 4000:
        raise Limit('polynomial')
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    r = _mkpoly(d)
    return _reduce_inv(r)


def _reduce_inv(r):
    """cancel p * inv(p) where p is a sum"""
    for m, c in r.args[0]:
        for n, pw in m:
            if n.op == 'app' and n.args[0] == 'inv' and pw > 0:
                p = n.args[1]
                # group the terms holding this factor: r = inv*q + rest ; if q = k*p -> k + rest
                q = {}
                rest = {}
                for m2, c2 in r.args[0]:
                    dd = dict(m2)
                    if dd.get(n, 0) >= 1:
                        dd[n] -= 1
                        if not dd[n]:
                            del dd[n]
                        q[tuple(sorted(dd.items(), key=lambda x: x[0].id))] = c2
                    else:
                        rest[m2] = c2
                qp = _mkpoly(q)
                k = _pdiv_exact(qp, p)
                if k is not None:
                    return _reduce_inv(padd(k, _mkpoly(rest)))
    return r


def _pdiv_exact(a, p):
    """a / p if p divides a (multivariate division with the term order of the representation), else None"""
    if not p.args[0]:
        return None
    lead_m, lead_c = p.args[0][0]
    q = {}
    steps = 0
    while a.args[0]:
        steps += 1
        if steps > 40:
            return None
        found = None
        m, c = a.args[0][0]
        inv = tuple((n, -pw) for n, pw in lead_m)
        t = _mmul(m, tuple(sorted(inv, key=lambda x: x[0].id)))
        orig = {n: pw for n, pw in m}
        for n, pw in lead_m:
            if orig.get(n, 0) < pw:
                return None
        k = c / lead_c
        q[t] = q.get(t, 0) + k
        a = padd(a, _pm_raw(p, t, k), -1)
    return _mkpoly(q)


def _pm_raw(p, t, k):
    return _mkpoly({_mmul(m, t): c * k for m, c in p.args[0]})


def pinv(a):
    """1 / a, a not the zero polynomial"""
    items = a.args[0]
    if len(items) == 1:
        m, c = items[0]
        d = {}
        out = []
        for n, p in m:
            if n.op == 'app' and n.args[0] == 'inv':
                # 1/inv(q) = q
                q = n.args[1]
                r = num(1)
                for _ in range(p):
                    r = pmul(r, q)
                out.append(r)
            else:
                d[n] = -p
        mono = tuple(sorted(d.items(), key=lambda x: x[0].id))
        r = _mkpoly({mono: 1 / c})
        for q in out:
            r = pmul(r, q)
        return r
    lead = items[0][1]
    prim = pscale(a, 1 / lead)
    return pscale(poly_of(mk('app', 'inv', prim)), 1 / lead)


def pdiv(a, b):
    if not b.args[0]:
        return mk('app', 'div0', a)
    k = _pdiv_exact(a, b) if len(b.args[0]) > 1 else None
    if k is not None:
        return k
    return pmul(a, pinv(b))


def is_int_sym(n):
    return (n.op == 'sym' and n.args[1] == 'int') or (n.op == 'app' and n.args[0] in ('len', 'int', 'floor', 'min_i', 'count', 'idiv', 'sindex'))


def is_int(p):
    for m, c in p.args[0]:
        if c.denominator != 1:
            return False
        for n, pw in m:
            if pw < 0 or not is_int_sym(n):
                return False
    return True


# ---------------------------------------------------------------- symbols

def sym(name, kind, *extra):
    return mk('sym', name, kind) if not extra else mk('sym', name, kind, *extra)


def app(f, *args):
    return mk('app', f, *args)


def num_app(f, *args):
    return poly_of(app(f, *args))


def idx_sym(count, depth=0):
    """generic index 0 <= i < count"""
    return mk('sym', 'i%d' % depth, 'int', count)


def nullable(n, kind):
    """value of a nullable symbolic scalar"""
    return ite_atom(atom('none', n), NONE, typed(n, kind))


def typed(n, kind):
    if kind in ('num', 'int'):
        return poly_of(n)
    if kind == 'bool':
        return ite_atom(atom('true', n), TRUE, FALSE)
    return n


# ---------------------------------------------------------------- atoms

def atom(kind, *args):
    k = (kind,) + args
    a = _atab.get(k)
    if a is None:
        a = Atom()
        a.kind = kind
        a.args = args
        a._syms = None
        _n[0] += 1
        a.id = _n[0]
        a.grp = _group(kind, args)
        _atab[k] = a
    return a


def _strip_const(p):
    return tuple((m, c) for m, c in p.args[0] if m != ())


def _cst(p):
    for m, c in p.args[0]:
        if m == ():
            return c
    return Fraction(0)


def _subject(v):
    if v.op == 'app' and v.args[0] in ('first', 'rest', 'lower', 'upper', 'strip', 'float_ok'):
        return _subject(v.args[1])
    return v


def _group(kind, args):
    if kind in ('eq0', 'lt0'):
        q = _abs_of(args[0])
        if q is not None:
            e = eq_zero(q[0])
            if e.op == 'ite' and e.args[0].kind == 'eq0' and e.args[1] is TRUE and e.args[2] is FALSE:
                return e.args[0].grp
        return ('num', _strip_const(args[0]))
    if kind in ('streq', 'in', 'prefix', 'suffix', 'float_ok', 'int_ok'):
        return ('str', _subject(args[0]))
    if kind in ('none', 'iterable', 'isinst', 'truthy', 'same', 'callable', 'missing', 'exists'):
        return ('obj', args[0])
    if kind == 'any':
        return ('any', args[0])
    if kind == 'member':
        return ('member', args[0])
    return (kind,) + args


def _abs_of(p):
    """(q, k, c) if p is k*|q| + c"""
    t = _strip_const(p)
    if len(t) == 1 and len(t[0][0]) == 1 and t[0][0][0][1] == 1:
        n = t[0][0][0][0]
        if n.op == 'app' and n.args[0] == 'abs':
            return n.args[1], t[0][1], _cst(p)
    return None


def _implied_abs(a, av, b):
    """relations between |q| compared with constants and q == 0"""
    x, y = _abs_of(a.args[0]), _abs_of(b.args[0])
    if x is None:
        if a.kind != 'eq0' or not av or _cst(a.args[0]) != 0:
            return None
        lo, hi, lo_in, hi_in = Fraction(0), Fraction(0), True, True
    else:
        if a.kind != 'lt0':
            return None
        t = -x[2] / x[1]
        if (x[1] > 0) == av:        # |q| below t
            lo, hi, lo_in, hi_in = Fraction(0), t, True, not av
        else:                       # |q| above t
            lo, hi, lo_in, hi_in = t, None, not av, False
            if lo < 0:
                lo, lo_in = Fraction(0), True
    if y is None:
        if b.kind != 'eq0' or _cst(b.args[0]) != 0:
            return None
        return False if lo > 0 or not lo_in else True if hi == 0 and hi_in else None
    if b.kind != 'lt0':
        return None
    t = -y[2] / y[1]
    if y[1] > 0:                    # |q| < t ?
        if hi is not None and (hi < t or hi == t and not hi_in):
            return True
        return False if lo >= t else None
    if lo > t or lo == t and not lo_in:     # |q| > t ?
        return True
    return False if hi is not None and hi <= t else None


_imp = memo()


def implied(a, av, b):
    """value forced on atom b by atom a having value av (True/False), or None"""
    if a is b:
        return av
    if a.grp != b.grp:
        return None
    k = (a, av, b)
    r = _imp.get(k, 0)
    if r == 0:
        r = _implied(a, av, b)
        _imp[k] = r
    return r


def _implied(a, av, b):
    g = a.grp[0]
    if g == 'num' and (_abs_of(a.args[0]) is not None or _abs_of(b.args[0]) is not None):
        return _implied_abs(a, av, b)
    if g == 'num':
        ca, cb = _cst(a.args[0]), _cst(b.args[0])
        if a.kind == 'eq0' and av:        # q = -ca
            v = -ca + cb
            return (v == 0) if b.kind == 'eq0' else (v < 0)
        if a.kind == 'lt0' and av:        # q < -ca
            if b.kind == 'lt0':           # q < -cb ?
                return True if -ca <= -cb else None
            return False if -cb >= -ca else None     # q == -cb impossible
        if a.kind == 'lt0' and not av:    # q >= -ca
            if b.kind == 'lt0':
                return False if -cb <= -ca else None
            return False if -cb < -ca else None
        return None
    if g == 'str':
        return _implied_str(a, av, b)
    if g == 'obj':
        if a.kind == 'none' and av and b.kind in ('iterable', 'isinst', 'truthy', 'callable'):
            return False
        if a.kind in ('iterable', 'isinst', 'truthy', 'callable') and av and b.kind == 'none':
            return False
        if a.kind == 'isinst' and av and b.kind == 'iterable' and a.args[1] in ('list', 'tuple', 'set', 'Layer', 'dict'):
            return True
        if a.kind == 'iterable' and not av and b.kind == 'isinst' and b.args[1] in ('list', 'tuple', 'set', 'Layer', 'dict'):
            return False
        if a.kind == 'isinst' and av and b.kind == 'iterable' and a.args[1] in ('PyLine', 'Line'):
            return False
        if a.kind == 'isinst' and av and b.kind == 'isinst' and a.args[1] != b.args[1] and \
                {a.args[1], b.args[1]} <= {'list', 'tuple', 'set', 'dict', 'str', 'PyLine'}:
            return False
        return None
    if g == 'any':
        if av and b.kind == 'any' and a.args[1] is b.args[1]:
            if implies(a.args[2], b.args[2]):
                return True
            return None
        if not av and a.args[1] is b.args[1]:
            if implies(b.args[2], a.args[2]):
                return False
        return None
    if g == 'member':
        return None
    return None


def _sfun(t, s):
    """value of the derived string term t (first/rest/... of its subject) when the subject is the constant s"""
    if t.op == 'app' and t.args[0] in ('first', 'rest', 'lower', 'upper', 'strip'):
        v = _sfun(t.args[1], s)
        if v is None:
            return None
        f = t.args[0]
        return {'first': v[:1], 'rest': v[1:], 'lower': v.lower(), 'upper': v.upper(), 'strip': v.strip()}[f]
    return s


def _float_ok(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


def _int_ok(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


def _satom_value(b, s):
    """truth of string atom b when its subject is the constant string s"""
    v = _sfun(b.args[0], s)
    if v is None:
        return None
    if b.kind == 'streq':
        return v == b.args[1]
    if b.kind == 'in':
        return b.args[1] in v
    if b.kind == 'prefix':
        return v.startswith(b.args[1])
    if b.kind == 'suffix':
        return v.endswith(b.args[1])
    if b.kind == 'float_ok':
        return _float_ok(v)
    if b.kind == 'int_ok':
        return _int_ok(v)
    return None


def _implied_str(a, av, b):
    if av and a.kind == 'streq':
        if a.args[0] is _subject(a.args[0]):
            return _satom_value(b, a.args[1])
        if a.args[0] is b.args[0]:
            s = a.args[1]
            if b.kind == 'streq':
                return s == b.args[1]
            if b.kind == 'in':
                return b.args[1] in s
            if b.kind == 'prefix':
                return s.startswith(b.args[1])
            if b.kind == 'suffix':
                return s.endswith(b.args[1])
            if b.kind == 'float_ok':
                return _float_ok(s)
            if b.kind == 'int_ok':
                return _int_ok(s)
        # streq(first(x),'G') true -> streq(x,'M3') false
        if b.kind == 'streq' and b.args[0] is _subject(a.args[0]):
            v = _sfun(a.args[0], b.args[1])
            if v is not None and v != a.args[1]:
                return False
        if b.kind == 'streq' and b.args[0] is not a.args[0]:
            # first(x) == 'G'  vs lower(first(x)) == 'n'
            t, u = a.args[0], b.args[0]
            # u = f(t) ?
            if u.op == 'app' and u.args[1] is t and u.args[0] in ('lower', 'upper'):
                return _sfun(u, a.args[1]) == b.args[1] if False else \
                    ((a.args[1].lower() if u.args[0] == 'lower' else a.args[1].upper()) == b.args[1])
            if t.op == 'app' and t.args[1] is u and t.args[0] in ('lower', 'upper'):
                v = b.args[1].lower() if t.args[0] == 'lower' else b.args[1].upper()
                if v != a.args[1]:
                    return False
        if b.kind == 'in' and False:
            return None
        return None
    if not av and a.kind == 'streq' and b.kind == 'streq' and b.args[0] is _subject(a.args[0]) and a.args[0] is not b.args[0]:
        v = _sfun(a.args[0], b.args[1])
        if v is not None and v == a.args[1]:
            return False
    if not av and a.kind in ('in', 'prefix', 'suffix', 'float_ok', 'int_ok') and b.kind == 'streq' and b.args[0] is _subject(a.args[0]):
        v = _satom_value(a, b.args[1])
        if v:
            return False
    if av and a.kind in ('in', 'prefix', 'suffix', 'float_ok', 'int_ok') and b.kind == 'streq' and b.args[0] is _subject(a.args[0]):
        v = _satom_value(a, b.args[1])
        if v is False:
            return False
    if a.args[0] is b.args[0]:
        if a.kind == 'in' and b.kind == 'in':
            if av and b.args[1] in a.args[1]:
                return True
            if not av and a.args[1] in b.args[1]:
                return False
        if a.kind == 'prefix' and b.kind == 'in':
            if av and b.args[1] in a.args[1]:
                return True
        if a.kind == 'in' and b.kind == 'prefix':
            if not av and a.args[1] in b.args[1]:
                return False
        if a.kind == 'prefix' and b.kind == 'prefix':
            if av and a.args[1].startswith(b.args[1]):
                return True
            if av and not b.args[1].startswith(a.args[1]):
                return False
            if not av and b.args[1].startswith(a.args[1]):
                return False
        if a.kind == 'int_ok' and b.kind == 'float_ok' and av:
            return True
        if a.kind == 'float_ok' and b.kind == 'int_ok' and not av:
            return False
    return None


# ---------------------------------------------------------------- decision nodes

_restrict = memo()


def restrict(v, a, val):
    """v with atom a (and everything implied) fixed"""
    if not v.sup:
        return v
    k = (v, a, val)
    r = _restrict.get(k)
    if r is not None:
        return r
    hit = False
    for b in v.sup:
        if b.grp == a.grp and implied(a, val, b) is not None:
            hit = True
            break
    if not hit:
        r = v
    else:
        t = v.args[0]
        f = implied(a, val, t)
        if f is True:
            r = restrict(v.args[1], a, val)
        elif f is False:
            r = restrict(v.args[2], a, val)
        else:
            r = _node(t, restrict(v.args[1], a, val), restrict(v.args[2], a, val))
    _restrict[k] = r
    return r


def _node(a, hi, lo):
    if hi is lo:
        return hi
    return mk('ite', a, hi, lo)


def mknode(a, hi, lo):
    """Ite for an atom that is above all atoms of hi and lo"""
    hi = restrict(hi, a, True)
    lo = restrict(lo, a, False)
    if hi is lo:
        return hi
    if a.kind == 'eq0':
        s = _solve(a.args[0])
        if s is not None:
            hi2 = subst(hi, {s[0]: s[1]})
            hi2 = restrict(hi2, a, True)
            lo2 = subst(lo, {s[0]: s[1]})
            lo2 = restrict(lo2, a, True)
            if hi2 is lo2:
                return lo
            if _top_ok(a, hi2):
                hi = hi2
    return mk('ite', a, hi, lo)


def _top_ok(a, v):
    return all(b.id > a.id for b in v.sup)


def _solve(p):
    """p == 0 solved for one plain symbol appearing linearly: (symbol, value)"""
    cands = []
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].args[0] not in ('big', 'abs'):
            n = m[0][0]
            others = [m2 for m2, _ in p.args[0] if m2 is not m and any(x[0] is n for x in m2)]
            if not others:
                cands.append((n, c))
    if not cands:
        return None
    # latest created symbol
    n, c = max(cands, key=lambda x: x[0].id)
    rest = _mkpoly({m: cc for m, cc in p.args[0] if m != ((n, 1),)})
    val = pscale(rest, -1 / c)
    if n in syms(val):
        return None
    return n, val


def top(*vs):
    t = None
    for v in vs:
        if v.op == 'ite' and (t is None or v.args[0].id < t.id):
            t = v.args[0]
    return t


def cof(v, a):
    if v.op == 'ite' and v.args[0] is a:
        return v.args[1], v.args[2]
    return v, v


_ite = memo()
_depth = [0]
MAXIT = 3000000


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    if len(_ite) > MAXIT:
        raise Limit('ite table')
    t = top(c, a, b)
    if c.op != 'ite':
        raise Limit('condition is no boolean: %r' % (c,))
    c1, c0 = cof(c, t)
    a1, a0 = cof(a, t)
    b1, b0 = cof(b, t)
    # restrict by implication before descending keeps diagrams small
    c1, a1, b1 = (restrict(x, t, True) for x in (c1, a1, b1))
    c0, a0, b0 = (restrict(x, t, False) for x in (c0, a0, b0))
    r = mknode(t, ite(c1, a1, b1), ite(c0, a0, b0))
    _ite[k] = r
    return r


def ite_atom(a, hi, lo):
    return ite(mk('ite', a, TRUE, FALSE), hi, lo)


def lit(a):
    return mk('ite', a, TRUE, FALSE)


def band(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
        if r is FALSE:
            return r
    return r


def bor(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
        if r is TRUE:
            return r
    return r


def bnot(c):
    return ite(c, FALSE, TRUE)


def implies(a, b):
    return band(a, bnot(b)) is FALSE


def iff(a, b):
    return ite(a, b, bnot(b))


def lift1(f, v, tab=None):
    """apply f to the leaves of v (f may return a diagram)"""
    if v.op != 'ite':
        return f(v)
    if tab is None:
        tab = {}
    r = tab.get(v)
    if r is None:
        r = ite(lit(v.args[0]), lift1(f, v.args[1], tab), lift1(f, v.args[2], tab))
        tab[v] = r
    return r


def lift2(f, a, b, tab=None):
    if a.op != 'ite' and b.op != 'ite':
        return f(a, b)
    if tab is None:
        tab = {}
    k = (a, b)
    r = tab.get(k)
    if r is None:
        t = top(a, b)
        a1, a0 = cof(a, t)
        b1, b0 = cof(b, t)
        a1, b1 = restrict(a1, t, True), restrict(b1, t, True)
        a0, b0 = restrict(a0, t, False), restrict(b0, t, False)
        r = ite(lit(t), lift2(f, a1, b1, tab), lift2(f, a0, b0, tab))
        tab[k] = r
    return r


def liftn(f, vs, tab=None):
    if all(v.op != 'ite' for v in vs):
        return f(*vs)
    if tab is None:
        tab = {}
    k = tuple(vs)
    r = tab.get(k)
    if r is None:
        t = top(*vs)
        hs, ls = [], []
        for v in vs:
            h, l = cof(v, t)
            hs.append(restrict(h, t, True))
            ls.append(restrict(l, t, False))
        r = ite(lit(t), liftn(f, hs, tab), liftn(f, ls, tab))
        tab[k] = r
        if len(tab) > 20000:
            raise Limit('liftn')
    return r


def leaves(v):
    """distinct leaves"""
    seen = set()
    out = []
    st = [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.args[2])
            st.append(x.args[1])
        else:
            out.append(x)
    return out


def paths(v, want=None, limit=20000):
    """(literals, leaf) for every path of the diagram"""
    out = []

    def rec(x, lits):
        if len(out) >= limit:
            return
        if x.op == 'ite':
            rec(x.args[1], lits + [(x.args[0], True)])
            rec(x.args[2], lits + [(x.args[0], False)])
        elif want is None or want(x):
            out.append((lits, x))
    rec(v, [])
    return out


def guard_of(v, pred):
    """condition under which the leaf satisfies pred"""
    return lift1(lambda x: B(pred(x)), v)


# ---------------------------------------------------------------- syms / substitution

def syms(v):
    """symbols and opaque terms occurring in v (terms included at every level)"""
    if isinstance(v, Atom):
        if v._syms is None:
            s = set()
            for a in v.args:
                _collect(a, s)
            v._syms = frozenset(s)
        return v._syms
    if v._syms is None:
        s = set()
        if v.op in ('sym', 'app'):
            s.add(v)
        for a in v.args:
            _collect(a, s)
        v._syms = frozenset(s)
    return v._syms


def _collect(a, s):
    if isinstance(a, (N, Atom)):
        s |= syms(a)
    elif isinstance(a, tuple):
        for x in a:
            _collect(x, s)


def subst(v, m, memo_=None):
    """replace symbols/terms by values (keys: N leaf terms); rebuilds canonical forms"""
    if memo_ is None:
        memo_ = {}
    keys = frozenset(m)

    def go(x):
        if not (syms(x) & keys) and x not in keys:
            return x
        r = memo_.get(x)
        if r is None:
            r = go1(x)
            memo_[x] = r
        return r

    def go1(x):
        if x in m:
            return m[x]
        op = x.op
        if op == 'ite':
            return ite(go_atom(x.args[0]), go(x.args[1]), go(x.args[2]))
        if op == 'p':
            acc = num(0)
            for mono, c in x.args[0]:
                t = num(c)
                for n, p in mono:
                    nv = go(n)
                    t = mul_pow(t, nv, p)
                acc = lift2(_addl, acc, t)
            return acc
        if op == 'app':
            if x.args[0] in ('sum', 'agg'):
                return rebuild_app(x, go_any)
            return rebuild_app(x, go_any)
        if op == 'sym':
            if len(x.args) > 2:
                return mk('sym', *[go_any(a) for a in x.args])
            return x
        if op == 'ref':
            return mk('ref', go_any(x.args[0]))
        if op == 'cat':
            return strcat([go_any(a) for a in x.args[0]])
        if op == 'tup':
            return liftn(lambda *it: mk('tup', it), [go(a) for a in x.args[0]]) if x.args[0] else x
        if op == 'seq':
            return seq_parts([go_part(p) for p in x.args[0]])
        if op in ('bound', 'either', 'opaque'):
            return mk(op, *[go_any(a) for a in x.args])
        return x

    def go_part(p):
        if p.op == 'e':
            return mk('e', go(p.args[0]))
        if p.op == 's':
            b = go(p.args[0])
            lo, hi = go(p.args[1]), go(p.args[2])
            if b.op == 'seq':
                raise Limit('substitution of a sequence in a slice')
            return mk('s', b, lo, hi)
        if p.op == 'fm':
            n2 = go(p.args[0])
            body = p.args[2]
            i = p.args[1]
            if i in keys:
                m2 = {k: w for k, w in m.items() if k is not i}
                body2 = subst(body, m2) if m2 else body
            else:
                body2 = go(body)
            if n2 is not p.args[0]:
                i2 = idx_like(i, n2)
                body2 = subst(body2, {i: poly_of(i2)})
                i = i2
            return mk('fm', n2, i, body2)
        return p

    def go_any(a):
        if isinstance(a, N):
            return go(a)
        if isinstance(a, Atom):
            return go_atom(a)
        if isinstance(a, tuple):
            return tuple(go_any(y) for y in a)
        return a

    def go_atom(a):
        if not (syms(a) & keys):
            return lit(a)
        return rebuild_atom(a, go_any)

    return go(v)


def idx_like(i, n):
    return mk('sym', i.args[0], 'int', n)


def mul_pow(t, v, p):
    def f(a, b):
        if b.op != 'p':
            b = poly_of(b)
        if p >= 0:
            for _ in range(p):
                a = pmul(a, b)
            return a
        for _ in range(-p):
            a = pdiv(a, b)
            if a.op != 'p':
                return poly_of(a)
        return a
    return lift2(f, t, v)


def _addl(a, b):
    if a.op != 'p' or b.op != 'p':
        return poly_of(app('add', a, b))
    return padd(a, b)


_hooks = {}


def rebuild_app(x, go):
    f = x.args[0]
    args = [go(a) for a in x.args[1:]]
    h = _hooks.get(f)
    if h is not None:
        return h(*args)

    def mkapp(*ls):
        return mk('app', f, *ls)
    # arguments may have become diagrams
    if any(isinstance(a, N) and a.op == 'ite' for a in args):
        ns = [(i, a) for i, a in enumerate(args) if isinstance(a, N)]

        def g(*ls):
            aa = list(args)
            for (i, _), l in zip(ns, ls):
                aa[i] = l
            return mk('app', f, *aa)
        return liftn(g, [a for _, a in ns])
    return mk('app', f, *args)


def whole(f, p):
    """int or floor of a number"""
    import math
    if p.op != 'p':
        return mk('app', f, p)
    if is_num_const(p):
        return num((math.floor if f == 'floor' else math.trunc)(num_val(p)))
    return p if is_int(p) else num_app(f, p)


def round_(p, k):
    if p.op == 'p' and k.op == 'p' and is_num_const(k):
        d = num_val(k)
        if is_num_const(p):
            return num(Fraction(round(num_val(p), int(d))))
        if d >= 0 and is_int(p):
            return p
    return num_app('round', p, k)


_hooks['int'] = lambda *a: lift1(lambda p: whole('int', p), a[0]) if len(a) == 1 else mk('app', 'int', *a)
_hooks['floor'] = lambda *a: lift1(lambda p: whole('floor', p), a[0]) if len(a) == 1 else mk('app', 'floor', *a)
_hooks['round'] = lambda *a: lift2(round_, a[0], a[1]) if len(a) == 2 else mk('app', 'round', *a)


def rebuild_atom(a, go):
    k = a.kind
    args = [go(x) for x in a.args]
    if k == 'eq0':
        return lift1(lambda p: eq_zero(p), args[0])
    if k == 'lt0':
        return lift1(lambda p: lt_zero(p), args[0])
    if k in ('streq', 'in', 'prefix', 'suffix'):
        return lift1(lambda s: str_test(k, s, args[1]), args[0])
    if k == 'any':
        n, i, c = args
        i0 = a.args[1]
        if n is not a.args[0]:
            i = idx_like(i0, n)
            c = subst(c, {i0: poly_of(i)})
        return any_(n, i0 if n is a.args[0] else i, c)
    if k == 'none':
        return lift1(lambda x: is_none(x), args[0])
    if k == 'true':
        return lift1(lambda x: lit(atom('true', x)) if x.op not in ('c',) else B(bool(x.args[1])), args[0])
    ns = [(i, x) for i, x in enumerate(args) if isinstance(x, N) and x.op == 'ite']
    if ns:
        def g(*ls):
            aa = list(args)
            for (i, _), l in zip(ns, ls):
                aa[i] = l
            return lit(atom(k, *aa))
        return liftn(g, [x for _, x in ns])
    h = _hooks.get('atom:' + k)
    if h is not None:
        return h(*args)
    return lit(atom(k, *args))


# ---------------------------------------------------------------- tests

def is_none(x):
    """diagram: leaf x is None"""
    if x.op == 'c':
        return B(x is NONE)
    if x.op in ('p', 'cat', 'tup', 'seq', 'ref', 'fn', 'cls', 'mod', 'bi', 'bound', 'partial', 'rematch'):
        return FALSE
    if x.op == 'absent' or x.op == 'undef':
        return FALSE
    if x.op == 'sym' and x.args[1] in ('num', 'int', 'str', 'seq', 'bool', 'obj'):
        return FALSE
    if x.op == 'app' and x.args[0] in STR_APPS:
        return FALSE
    return lit(atom('none', x))


STR_APPS = {'first', 'rest', 'lower', 'upper', 'strip', 'comment', 'regen', 'fmt', 'str', 'join', 'slice', 'repr', 'replace'}

_bounds = memo()


def _lower_bound(p, lo=True):
    """replace generic indices and lengths by their bounds; returns a constant lower (upper) bound or None"""
    work = p
    for _ in range(12):
        # eliminate index symbols first
        target = None
        for m, c in work.args[0]:
            if len(m) == 1 and m[0][1] == 1:
                n = m[0][0]
                if n.op == 'sym' and n.args[1] == 'int' and len(n.args) > 2 and isinstance(n.args[2], N):
                    target = (n, c)
                    break
            elif m:
                return None
        if target is None:
            break
        n, c = target
        rest = _mkpoly({m: cc for m, cc in work.args[0] if m != ((n, 1),)})
        if (c > 0) == lo:
            b = num(0)
        else:
            b = padd(n.args[2], num(1), -1)
        work = padd(rest, pscale(b, c))
    tot = Fraction(0)
    for m, c in work.args[0]:
        if m == ():
            tot += c
            continue
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in ('len', 'min_i', 'count', 'sqrt', 'abs', 'sindex'):
            if (c > 0) == lo:
                continue      # >= 0
            return None
        if len(m) == 1 and m[0][1] == 2 and (c > 0) == lo:
            continue
        return None
    return tot


def split_factors(p):
    """(factors [(term, power)], rest) with p the product; None when nothing can be taken out"""
    it = p.args[0]
    com = dict(it[0][0])
    for m, c in it[1:]:
        d = dict(m)
        for n in list(com):
            w = min(com[n], d.get(n, 0))
            if w:
                com[n] = w
            else:
                del com[n]
        for n, w in d.items():
            if w < 0 and n not in com:
                com[n] = min(w, 0)
    # negative powers have to be taken out of every term
    for m, c in it:
        for n, w in m:
            if w < 0:
                com[n] = min(com.get(n, 0), w)
    com = {n: w for n, w in com.items() if w}
    if not com or (len(it) == 1 and len(com) == 1 and list(com.values())[0] == 1):
        return None
    inv = tuple(sorted(((n, -w) for n, w in com.items()), key=lambda x: x[0].id))
    q = _mkpoly({_mmul(m, inv): c for m, c in it})
    return sorted(com.items(), key=lambda x: x[0].id), q


def _nonneg(n):
    return n.op == 'app' and n.args[0] in ('sqrt', 'abs', 'hypot', 'len', 'count', 'sindex')


TIES = [True]       # False: a number compared is never exactly the bound


def _extremum(p):
    """(the largest or smallest of several values in p, its factor, the rest)"""
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] in ('maxof', 'minof'):
            n = m[0][0]
            return n, c, padd(p, poly_of(n), -c)
    return None


def lt_zero(p):
    """diagram for p < 0"""
    if p.op != 'p':
        p = poly_of(p)
    if is_num_const(p):
        return B(num_val(p) < 0)
    if is_inf(p) is None and not is_int(p):
        s = split_factors(p)
        if s is not None:
            fs, q = s
            r, rn = lt_zero(q), None
            for n, w in fs:
                if w % 2 and not _nonneg(n):
                    if rn is None:
                        rn = lt_zero(neg(q))
                    g = lt_zero(poly_of(n))
                    r, rn = ite(g, rn, r), ite(g, r, rn)
            z = bor(*[eq_zero(poly_of(n)) for n, w in fs if w > 0])
            return band(bnot(z), r)
    if is_num_const(p):
        return B(num_val(p) < 0)
    if is_inf(p) is not None:
        return B(is_inf(p) < 0)
    lb = _lower_bound(p, True)
    if lb is not None and lb >= 0:
        return FALSE
    ub = _lower_bound(p, False)
    if ub is not None and ub < 0:
        return TRUE
    ex = _extremum(p)
    if ex is not None:
        n, k, rest = ex
        every = (n.args[0] == 'maxof') == (k > 0)
        r = B(every)
        for v in n.args[1:]:
            t = lift1(lambda l: lt_zero(padd(rest, l, k)), v)
            r = band(r, t) if every else bor(r, t)
        return r
    items = [(m, c) for m, c in p.args[0] if m != ()]
    k = _cst(p)
    if is_int(_mkpoly(dict(items))):
        from math import gcd
        g = 0
        for _, c in items:
            g = gcd(g, abs(c.numerator))
        # g*q + k < 0  <=> q < -k/g <=> q <= ceil(-k/g)-1 <=> q - ceil(-k/g) < 0
        t = -k / g
        ce = -((-t.numerator) // t.denominator)
        lead = items[0][1]
        if lead > 0:
            q = _mkpoly({m: c / g for m, c in items})
            return lit(atom('lt0', padd(q, num(-ce))))
        # q = -r : -r < ce  <=> r > -ce <=> not (r < -ce + 1)
        r = _mkpoly({m: -c / g for m, c in items})
        return bnot(lit(atom('lt0', padd(r, num(ce - 1)))))
    lead = items[0][1]
    q = pscale(p, 1 / abs(lead))
    if TIES[0] is False:
        return lit(atom('lt0', q)) if lead > 0 else bnot(lit(atom('lt0', neg(q))))
    if lead > 0:
        e = atom('eq0', q)
        return ite(lit(e), FALSE, lit(atom('lt0', q)))
    q = neg(q)
    e = atom('eq0', q)
    return ite(lit(e), FALSE, bnot(lit(atom('lt0', q))))


def is_inf(p):
    """sign if the polynomial is +-infinity plus finite things, else None"""
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args == ('inf',):
            return 1 if c > 0 else -1
    return None


def eq_zero(p):
    if p.op != 'p':
        p = poly_of(p)
    if is_num_const(p):
        return B(num_val(p) == 0)
    if is_inf(p) is not None:
        return FALSE
    if not is_int(p):
        s = split_factors(p)
        if s is not None:
            return bor(eq_zero(s[1]), *[eq_zero(poly_of(n)) for n, w in s[0] if w > 0])
        if len(p.args[0]) == 1 and p.args[0][0][0][0][0].op == 'app' and p.args[0][0][0][0][0].args[0] in ('sqrt', 'abs') \
                and p.args[0][0][0][0][0].args[1].op == 'p':
            return eq_zero(p.args[0][0][0][0][0].args[1])
    items = [(m, c) for m, c in p.args[0] if m != ()]
    if is_int(_mkpoly(dict(items))):
        return band(bnot(lt_zero(p)), lt_zero(padd(p, num(-1))))
    lb = _lower_bound(p, True)
    if lb is not None and lb > 0:
        return FALSE
    lead = items[0][1]
    # a single monomial: product is zero iff a factor is zero
    if len(p.args[0]) == 1 and items:
        m = items[0][0]
        if len(m) > 1 or m[0][1] != 1:
            cs = []
            for n, pw in m:
                if pw > 0:
                    cs.append(eq_zero(poly_of(n)))
            return bor(*cs)
        n = m[0][0]
        if n.op == 'app' and n.args[0] == 'inv':
            return FALSE
    q = pscale(p, 1 / lead)
    return lit(atom('eq0', q))


def poly_root(p):
    """polynomial whose square is p, or None"""
    from math import isqrt
    sq = []
    for m, c in p.args[0]:
        if all(w % 2 == 0 for n, w in m):
            if c < 0:
                return None
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a != c.numerator or b * b != c.denominator:
                return None
            sq.append((tuple((n, w // 2) for n, w in m), Fraction(a, b)))
    if not sq or len(p.args[0]) > len(sq) * (len(sq) + 1) // 2:
        return None
    d = dict(p.args[0])
    m0, c0 = sq[0]
    r = {m0: c0}
    for m, c in sq[1:]:
        x = d.get(_mmul(m0, m), 0)
        if not x:
            return None
        r[m] = c if x > 0 else -c
    q = _mkpoly(r)
    return q if pmul(q, q) is p else None


def any_(n, i, c):
    """exists 0 <= i < n with c(i)"""
    if c is FALSE:
        return FALSE
    if is_num_const(n) and num_val(n) <= 0:
        return FALSE
    if c is TRUE:
        return bnot(lt_zero(padd(n, num(-1))))
    # pull out atoms that do not depend on i
    for a in sorted(c.sup, key=lambda x: x.id):
        if i not in syms(a):
            return ite(lit(a), any_(n, i, restrict(c, a, True)), any_(n, i, restrict(c, a, False)))
    return lit(atom('any', n, i, c))


# ---------------------------------------------------------------- strings

def strcat(parts):
    """parts: leaves or diagrams of strings"""
    def build(*ps):
        out = []
        for p in ps:
            if p.op == 'cat':
                sub = p.args[0]
            elif p.op == 'c' and isinstance(p.args[1], str):
                sub = (p,)
            else:
                sub = (p,)
            for q in sub:
                if q.op == 'c' and q.args[1] == '' and isinstance(q.args[1], str):
                    continue
                if out and q.op == 'c' and out[-1].op == 'c':
                    out[-1] = C(out[-1].args[1] + q.args[1])
                elif out and q.op == 'app' and q.args[0] == 'rest' and out[-1].op == 'app' and out[-1].args[0] == 'first' \
                        and out[-1].args[1] is q.args[1]:
                    out[-1] = q.args[1]
                else:
                    out.append(q)
        if not out:
            return C('')
        if len(out) == 1:
            return out[0]
        return mk('cat', tuple(out))
    return liftn(build, list(parts))


def str_test(kind, s, needle):
    """streq / in / prefix / suffix of leaf string s with a constant"""
    if s.op == 'c':
        if not isinstance(s.args[1], str):
            return FALSE
        v = s.args[1]
        return B({'streq': v == needle, 'in': needle in v, 'prefix': v.startswith(needle),
                  'suffix': v.endswith(needle)}[kind])
    if kind == 'in' and needle == '':
        return TRUE
    if s.op in ('cat', 'sym') and not any(ch.isdigit() for ch in needle):
        r = rep_text(s)
        if r is not None:
            v = r[0]
            return B({'streq': v == needle, 'in': needle in v, 'prefix': v.startswith(needle), 'suffix': v.endswith(needle)}[kind])
    if s.op == 'cat':
        parts = s.args[0]
        if kind == 'prefix':
            if parts[0].op == 'c':
                v = parts[0].args[1]
                if v.startswith(needle):
                    return TRUE
                if not needle.startswith(v):
                    return FALSE
            return lit(atom('prefix', s, needle)) if parts[0].op == 'c' else \
                _prefix_first(s, parts, needle)
        if kind == 'suffix':
            if parts[-1].op == 'c':
                v = parts[-1].args[1]
                if v.endswith(needle):
                    return TRUE
                if not needle.endswith(v):
                    return FALSE
            return lit(atom('suffix', s, needle))
        if kind == 'in':
            res = []
            for p in parts:
                if p.op == 'c':
                    if needle in p.args[1]:
                        return TRUE
                elif p.op == 'app' and p.args[0] == 'fmt':
                    if not set(needle) & set('0123456789.-+einfa'):
                        continue
                    return lit(atom('in', s, needle))
                else:
                    res.append(p)
            # can the needle span a boundary?
            for k in range(len(parts) - 1):
                if _spans(parts, k, needle):
                    return lit(atom('in', s, needle))
            return bor(*[str_test('in', p, needle) for p in res])
        if kind == 'streq':
            # cheap refutations
            if parts[0].op == 'c' and not needle.startswith(parts[0].args[1]):
                return FALSE
            if parts[-1].op == 'c' and not needle.endswith(parts[-1].args[1]):
                return FALSE
            pos = 0
            for p in parts:
                if p.op == 'c':
                    j = needle.find(p.args[1], pos)
                    if j < 0:
                        return FALSE
                    pos = j + len(p.args[1])
            # one unknown part: solve
            unk = [p for p in parts if p.op != 'c']
            if len(unk) == 1:
                k = parts.index(unk[0])
                pre = ''.join(p.args[1] for p in parts[:k])
                post = ''.join(p.args[1] for p in parts[k + 1:])
                if len(needle) >= len(pre) + len(post) and needle.startswith(pre) and needle.endswith(post):
                    return str_test('streq', unk[0], needle[len(pre):len(needle) - len(post)])
                return FALSE
            return lit(atom('streq', s, needle))
    if s.op in ('sym', 'app'):
        if s.op == 'app' and s.args[0] in ('slice', 'first', 'rest', 'at') and is_digits(s.args[1]) and needle and not needle.isdigit():
            return FALSE
        if kind == 'in' and needle == ';' and is_command(s):
            return FALSE
        if s.op == 'app' and s.args[0] == 'first' and kind == 'streq' and len(needle) > 1:
            return FALSE
        if s.op == 'app' and s.args[0] in ('lower',) and kind == 'streq' and needle != needle.lower():
            return FALSE
        if s.op == 'app' and s.args[0] in ('upper',) and kind == 'streq' and needle != needle.upper():
            return FALSE
        if s.op == 'app' and s.args[0] == 'comment' and kind == 'in' and needle != ';' and False:
            return None
        return lit(atom(kind, s, needle))
    return FALSE


DIGITS = '135792468013'


def digits(name):
    """a non-empty run of decimal digits"""
    return mk('sym', name, 'str', 'digits')


def is_digits(t):
    return t.op == 'sym' and len(t.args) > 2 and t.args[2] == 'digits'


def rep_text(x):
    """(representative, [(lo, hi, part)]) of a text made of constants and runs of digits"""
    parts = x.args[0] if x.op == 'cat' else (x,)
    out, spans = '', []
    dig = False
    for p in parts:
        if p.op == 'c' and isinstance(p.args[1], str):
            t = p.args[1]
        elif is_digits(p):
            t = DIGITS
            dig = True
        else:
            return None
        spans.append((len(out), len(out) + len(t), p))
        out += t
    return (out, spans) if dig else None


def rep_slice(spans, rep, lo, hi):
    """the text between two positions of the representative"""
    out = []
    for a, b, p in spans:
        l, h = max(a, lo), min(b, hi)
        if l >= h:
            continue
        if p.op == 'c':
            out.append(C(p.args[1][l - a:h - a]))
        elif (l, h) == (a, b):
            out.append(p)
        else:
            out.append(mk('app', 'slice', p, num(l - a), num(h - a), NONE))
    return strcat(out) if out else C('')


def is_command(s):
    """a command as the parser leaves it: a letter and a number"""
    if s.op != 'sym':
        return False
    a = s.args[0]
    return a == 'command' or (isinstance(a, N) and a.op == 'app' and a.args[0] == 'attr' and a.args[2] == 'command')


def after(x, c):
    """text after the first occurrence of a constant the text contains"""
    if x.op == 'c' and c.args[1] in x.args[1]:
        return C(x.args[1].split(c.args[1], 1)[1])
    if x.op == 'cat' and len(c.args[1]) == 1:
        ch = c.args[1]
        parts = x.args[0]
        for k, p in enumerate(parts):
            if p.op == 'c':
                if ch in p.args[1]:
                    t = p.args[1].split(ch, 1)[1]
                    rest = ([C(t)] if t else []) + list(parts[k + 1:])
                    return strcat(rest) if rest else C('')
            elif p.op == 'app' and p.args[0] == 'fmt' and ch not in '0123456789.-+einfa':
                continue
            elif is_command(p) and ch == ';':
                continue
            else:
                break
    return mk('app', 'after', x, c)


_hooks['after'] = lambda x, c: lift2(after, x, c)


def _prefix_first(s, parts, needle):
    # prefix of an unknown first part: unknown + const
    return lit(atom('prefix', s, needle))


def _spans(parts, k, needle):
    """may the needle span the boundary between parts[k] and parts[k+1]?"""
    a, b = parts[k], parts[k + 1]
    for cut in range(1, len(needle)):
        l, r = needle[:cut], needle[cut:]
        if a.op == 'c' and not (a.args[1].endswith(l) or (len(l) > len(a.args[1]) and l.endswith(a.args[1]))):
            continue
        if b.op == 'c' and not (b.args[1].startswith(r) or (len(r) > len(b.args[1]) and r.startswith(b.args[1]))):
            continue
        if a.op == 'app' and a.args[0] == 'fmt' and l[-1] not in '0123456789':
            continue
        if b.op == 'app' and b.args[0] == 'fmt' and r[0] not in '0123456789-':
            continue
        return True
    return False


# ---------------------------------------------------------------- sequences

def seq_parts(parts):
    """parts may hold diagrams only inside 'e' and 'fm' bodies"""
    out = []
    for p in parts:
        if p.op == 's':
            c = padd(p.args[2], p.args[1], -1)
            if is_num_const(c) and num_val(c) <= 0:
                continue
            if out and out[-1].op == 's' and out[-1].args[0] is p.args[0] and out[-1].args[2] is p.args[1]:
                out[-1] = mk('s', p.args[0], out[-1].args[1], p.args[2])
                continue
            if is_num_const(c) and num_val(c) == 1:
                out.append(mk('e', at_base(p.args[0], p.args[1])))
                continue
        elif p.op == 'fm':
            if p.args[2].op == 'seq' and not p.args[2].args[0]:
                continue
            if is_num_const(p.args[0]) and num_val(p.args[0]) <= 0:
                continue
        if p.op == 'e' and out and out[-1].op == 's' and p.args[0] is at_base(out[-1].args[0], out[-1].args[2]):
            out[-1] = mk('s', out[-1].args[0], out[-1].args[1], padd(out[-1].args[2], num(1)))
            continue
        if p.op == 's' and out and out[-1].op == 'e' and out[-1].args[0] is at_base(p.args[0], padd(p.args[1], num(-1))):
            out[-1] = mk('s', p.args[0], padd(p.args[1], num(-1)), p.args[2])
            continue
        out.append(p)
    return mk('seq', tuple(out))


def elem(v):
    return mk('e', v)


def seq(*vals):
    return mk('seq', tuple(mk('e', v) for v in vals))


EMPTYSEQ = mk('seq', ())


def at_base(base, idx):
    """element of an opaque base sequence"""
    kind = base.args[2] if base.op == 'sym' and len(base.args) > 2 else None
    if base.op == 'app' and base.args[0] in ('items', 'seqof'):
        kind = base.args[-1]
    t = mk('app', 'at', base, idx)
    return elem_value(t, kind)


def elem_value(t, kind):
    if kind is None:
        return t
    if isinstance(kind, str) and kind.startswith('obj:'):
        return mk('ref', t)
    if kind == 'num':
        return poly_of(t)
    if kind == 'int':
        return poly_of(mk('sym', t, 'int'))
    if kind == 'bool':
        return lit(atom('true', t))
    if kind == 'str':
        return mk('sym', t, 'str')
    if kind == 'num?':
        return ite_atom(atom('none', t), NONE, poly_of(t))
    if isinstance(kind, str) and kind.startswith('strs:'):
        return mk('tup', tuple(mk('sym', mk('app', 'tget', t, poly_of(num(i))), 'str') for i in range(int(kind[5:]))))
    return t


_hooks['at'] = lambda b, i: _at_unwrap(b, i)


def _at_unwrap(b, i):
    # used while substituting inside terms: keep the raw term
    if isinstance(i, N) and i.op == 'ite':
        return lift1(lambda l: mk('app', 'at', b, l), i)
    return mk('app', 'at', b, i)


def concat(a, b):
    return lift2(lambda x, y: seq_parts(list(x.args[0]) + list(y.args[0])), a, b)


def fm(n, i, body):
    """flat map 0 <= i < n of body(i): diagram of sequences"""
    if body.op == 'seq' and not body.args[0]:
        return EMPTYSEQ
    if is_num_const(n):
        if num_val(n) <= 0:
            return EMPTYSEQ
        if num_val(n) <= 6 and num_val(n) == int(num_val(n)):
            out = EMPTYSEQ
            for k in range(int(num_val(n))):
                out = lift2(concat, out, subst(body, {i: num(k)}))
            return out
    # identity over a base
    if body.op == 'seq' and len(body.args[0]) == 1:
        p = body.args[0][0]
        if p.op == 'e':
            v = p.args[0]
            t = v.args[0] if v.op == 'ref' else v
            if v.op == 'p' and len(v.args[0]) == 1 and v.args[0][0][1] == 1 and len(v.args[0][0][0]) == 1 and v.args[0][0][0][0][1] == 1:
                t = v.args[0][0][0][0][0]
            if t is not None and isinstance(t, N) and t.op == 'app' and t.args[0] == 'at' and i not in syms(t.args[1]):
                off = padd(t.args[2], poly_of(i), -1)
                if i not in syms(off) and at_base(t.args[1], t.args[2]) is v:
                    return seq_parts([mk('s', t.args[1], off, padd(off, n))])
    # pull out atoms independent of i
    for a in sorted(body.sup, key=lambda x: x.id):
        if i not in syms(a):
            return ite(lit(a), fm(n, i, restrict(body, a, True)), fm(n, i, restrict(body, a, False)))
    return seq_parts([mk('fm', n, i, body)])


def seq_len(s):
    """length of a seq leaf"""
    tot = num(0)
    for p in s.args[0]:
        if p.op == 'e':
            tot = lift2(_addl, tot, num(1))
        elif p.op == 's':
            tot = lift2(_addl, tot, padd(p.args[2], p.args[1], -1))
        else:
            tot = lift2(_addl, tot, sum_(p.args[0], p.args[1], lift1(seq_len, p.args[2])))
    return tot


def len_base(b):
    return num_app('len', b)


def sum_(n, i, d):
    """sum over 0 <= i < n of the numeric diagram d"""
    if i not in syms(d) and d.op == 'p':
        return pmul(n, d)
    if d.op == 'p':
        # linear: take out constant factors and split terms
        acc = num(0)
        for m, c in d.args[0]:
            dep = tuple((x, p) for x, p in m if i in syms(x))
            ind = tuple((x, p) for x, p in m if i not in syms(x))
            if not dep:
                acc = padd(acc, pmul(n, _mkpoly({ind: c})))
            else:
                t = num_app('sum', n, i, _mkpoly({dep: Fraction(1)}))
                acc = padd(acc, pmul(_mkpoly({ind: c}), t))
        return acc
    for a in sorted(d.sup, key=lambda x: x.id):
        if i not in syms(a):
            return ite(lit(a), sum_(n, i, restrict(d, a, True)), sum_(n, i, restrict(d, a, False)))
    return num_app('sum', n, i, d)


def _sum_hook(n, i, d):
    return lift1(lambda x: x, sum_(n, i, d)) if not (isinstance(n, N) and n.op == 'ite') else num_app('sum', n, i, d)


# ---------------------------------------------------------------- printing

def show_poly(v):
    if not v.args[0]:
        return '0'
    out = []
    for m, c in v.args[0]:
        ms = '*'.join(show(n) + ('' if p == 1 else '^%d' % p) for n, p in m)
        if not ms:
            out.append(str(c) if c.denominator == 1 else str(float(c)))
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append('-' + ms)
        else:
            out.append('%s*%s' % (c if c.denominator == 1 else float(c), ms))
    return ' + '.join(out).replace('+ -', '- ')


def show(v, depth=6):
    if not isinstance(v, N):
        if isinstance(v, Atom):
            return show_atom(v)
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x) for x in v) + ')'
        return str(v)
    op = v.op
    if op == 'c':
        return repr(v.args[1])
    if op == 'p':
        return show_poly(v)
    if op == 'sym':
        return str(v.args[0]) if len(v.args) < 3 or not isinstance(v.args[2], N) else '%s' % (v.args[0],)
    if op == 'app':
        if v.args[0] == 'big':
            return '{sum of %d terms #%d}' % (len(v.args[1].args[0]), v.id)
        if v.args[0] == 'attr':
            return '%s.%s' % (show(v.args[1]), v.args[2])
        if v.args[0] == 'at':
            return '%s[%s]' % (show(v.args[1]), show(v.args[2]))
        return '%s(%s)' % (v.args[0], ', '.join(show(x) for x in v.args[1:]))
    if op == 'ite':
        if depth <= 0:
            return '...'
        if v.args[1] is TRUE and v.args[2] is FALSE:
            return '[%s]' % show_atom(v.args[0])
        return '(%s ? %s : %s)' % (show_atom(v.args[0]), show(v.args[1], depth - 1), show(v.args[2], depth - 1))
    if op == 'cat':
        return 'cat(' + ' '.join(show(x) for x in v.args[0]) + ')'
    if op == 'tup':
        return '<' + ', '.join(show(x) for x in v.args[0]) + '>'
    if op == 'seq':
        return '[' + ', '.join(show(x) for x in v.args[0]) + ']'
    if op == 'e':
        return show(v.args[0])
    if op == 's':
        return '%s[%s:%s]..' % (show(v.args[0]), show(v.args[1]), show(v.args[2]))
    if op == 'fm':
        return 'for %s<%s: %s' % (show(v.args[1]), show(v.args[0]), show(v.args[2]))
    if op == 'ref':
        return '@' + show(v.args[0])
    if op in ('absent', 'undef'):
        return op
    return '%s(%s)' % (op, ', '.join(show(x) for x in v.args))


def show_atom(a):
    k = a.kind
    if k == 'eq0':
        return '%s == 0' % show(a.args[0])
    if k == 'lt0':
        return '%s < 0' % show(a.args[0])
    if k == 'none':
        return '%s is None' % show(a.args[0])
    if k == 'true':
        return '%s' % show(a.args[0])
    if k == 'streq':
        return '%s == %r' % (show(a.args[0]), a.args[1])
    if k == 'in':
        return '%r in %s' % (a.args[1], show(a.args[0]))
    if k == 'any':
        return 'any %s<%s: %s' % (show(a.args[1]), show(a.args[0]), show(a.args[2]))
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, (N, Atom, tuple)) else repr(x) for x in a.args))


def show_lits(lits):
    return ' and '.join(('%s' if v else 'not (%s)') % show_atom(a) for a, v in lits) or 'always'
