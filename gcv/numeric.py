"""value of a term for given numbers, to look for an input that shows a difference"""
import math
from .alg import *


class NoValue(Exception):
    pass


class Values(object):
    """env: {symbol node: float, bool, str or None}"""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def of(self, v):
        while v.op == 'ite':
            v = v.args[1] if self.true(v.args[0]) else v.args[2]
        if v.op == 'p':
            return self.number(v)
        if v is NONE:
            return None
        if v is TRUE or v is FALSE:
            return v is TRUE
        if v.op == 'c':
            return v.args[1]
        if v.op == 'sym':
            return self.sym(v)
        if v.op == 'cat':
            return ''.join(str(self.of(x)) for x in v.args[0])
        if v.op == 'app':
            return self.app(v)
        raise NoValue(v.op)

    def sym(self, n):
        if n.op == 'sym' and n in self.env:
            return self.env[n]
        if n.op == 'sym' and len(n.args) > 1 and isinstance(n.args[0], N) and n.args[0] in self.env:
            return self.env[n.args[0]]
        raise NoValue(n)

    def number(self, p):
        r = self.memo.get(p)
        if r is None:
            r = 0.0
            for m, k in p.args[0]:
                t = float(k)
                for n, w in m:
                    x = self.node(n)
                    if isinstance(x, bool) or not isinstance(x, (int, float)):
                        raise NoValue(n)
                    if w < 0 and x == 0:
                        raise NoValue('division by zero')
                    t *= x ** w
                r += t
            self.memo[p] = r
        return r

    def node(self, n):
        if n.op == 'app':
            r = self.memo.get(n)
            if r is None:
                r = self.memo[n] = self.app(n)
            return r
        return self.sym(n)

    def app(self, n):
        f = n.args[0]
        a = [self.of(x) for x in n.args[1:]]
        if any(x is None or isinstance(x, str) for x in a):
            raise NoValue(f)
        try:
            if f in ('sqrt', 'sin', 'cos', 'tan', 'atan2', 'floor', 'hypot', 'acos', 'asin', 'atan', 'exp', 'log'):
                return float(getattr(math, f)(*a))
            if f == 'big':
                return a[0]
            if f == 'abs':
                return abs(a[0])
            if f == 'inv':
                return 1.0 / a[0]
            if f == 'round':
                return round(a[0], int(a[1])) if len(a) > 1 else float(round(a[0]))
            if f == 'int':
                return float(int(a[0]))
            if f == 'pow':
                return a[0] ** a[1]
            if f == 'mod':
                return a[0] % a[1]
            if f == 'pi':
                return math.pi
            if f == 'max':
                return max(a)
            if f == 'min':
                return min(a)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise NoValue(f)
        raise NoValue(f)

    def true(self, a):
        k = a.kind
        if k == 'lt0':
            return self.number(a.args[0]) < 0
        if k == 'eq0':
            return abs(self.number(a.args[0])) < 1e-12
        if k == 'none':
            return self.sym(a.args[0]) is None
        if k == 'true':
            return bool(self.sym(a.args[0]))
        if k == 'streq':
            x = self.of(a.args[0])
            y = a.args[1]
            return x == (y.args[1] if isinstance(y, N) else y)
        raise NoValue(k)
