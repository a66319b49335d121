"""Expressions."""
import ast
import builtins
import sys

from .alg import *
from . import alg
from .state import *

OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow', '|': 'or', '&': 'and',
          '^': 'xor'}


def BI(name):
    return mk('bi', name)


def isnumlike(x):
    return x.op == 'p' or x is TRUE or x is FALSE


def asnum(x):
    if x.op == 'p':
        return x
    if x is TRUE:
        return num(1)
    if x is FALSE:
        return num(0)
    return poly_of(x)


def isstr(x):
    if x.op == 'c':
        return isinstance(x.args[1], str)
    if x.op == 'cat':
        return True
    if x.op == 'sym':
        return x.args[1] == 'str'
    return x.op == 'app' and x.args[0] in STR_APPS


STR_APPS.update(['after', 'before', 'raw', 'group', 'decode', 'decompress', 'b64decode', 'argv', 'readstr', 'index_str', 'rest_s'])


class Ev(object):

    # ------------------------------------------------------------ names

    def name_key(self, fr, name):
        return (fr.term, name)

    def lookup(self, st, name, node):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if f.func is None or f.locals_ is None:
                v = self.read_scope(st, f, name)
                if v is not None:
                    return v
            elif name in f.locals_ and name not in f.globals_:
                v = st.m.get((f.term, name), UNDEF)
                return self.defined(st, v, name, node)
            if f.parent is None:
                break
            f = f.parent
        v = self.read_scope(st, None, name, fr.module)
        if v is not None:
            if v.op == 'undef' or (v.op == 'ite' and UNDEF in leaves(v)):
                return self.defined(st, v, name, node)
            return v
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
            return BI(name)
        self.raise_(st, TRUE, 'NameError', node, name)
        return self.opaque(node, 'name ' + name)

    def read_scope(self, st, f, name, module=None):
        t = f.term if f is not None else module.term
        v = st.m.get((t, name))
        if v is None:
            v = self.static.get((t, name))
        if v is None or v is ABSENT or v is UNDEF:
            return None
        return v

    def defined(self, st, v, name, node):
        v = constrain(v, st.pc)
        if v.op == 'undef' or (v.op == 'ite' and UNDEF in leaves(v)):
            g = lift1(lambda x: B(x is UNDEF), v)
            self.raise_(st, g, 'UnboundLocalError', node, name)
            if v is UNDEF:
                return self.opaque(node, 'undefined ' + name)
            v = constrain(v, bnot(g))
            if v.op == 'ite' and UNDEF in leaves(v):
                o = self.opaque(node, 'undefined ' + name, quiet=True)
                v = lift1(lambda x: o if x is UNDEF else x, v)
        return v

    def opaque(self, node, what, quiet=False):
        s = self.site(node)
        if not quiet:
            self.unsup.append((s, what))
        return sym('unk:%s:%s:%s' % (s.file, s.line, what), 'any')

    # ------------------------------------------------------------ exceptions

    def raise_(self, st, g, exc, node, msg=''):
        """g: condition (relative to st.pc) of an implicit exception"""
        if g is FALSE:
            return
        g = band(st.pc, g)
        if g is FALSE:
            return
        if self.caught(exc):
            self.pend.append((g, exc, NONE, State(dict(st.m), g)))
            st.pc = band(st.pc, bnot(g))
            if st.pc is FALSE:
                from .interp import Raise
                raise Raise()
        else:
            if not self.rerun:
                self.obligs.append((g, exc, self.site(node), msg))

    def caught(self, exc):
        from .interp import EXC
        e = EXC.get(exc, Exception)
        for hs in reversed(self.handlers):
            for h in hs:
                if h is None:
                    return True
                hc = EXC.get(h)
                if hc is not None and issubclass(e, hc):
                    return True
        return False

    # ------------------------------------------------------------ evaluation

    def expr(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            return self.opaque(n, 'expression ' + type(n).__name__)
        if hasattr(n, 'lineno'):
            self.cur_line = n.lineno
        return m(n, st)

    def x_Constant(self, n, st):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
            return C(v) if not isinstance(v, bool) else B(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, complex):
            return mk('cx', num(v.real), num(v.imag))
        if v is Ellipsis:
            return ELLIPSIS
        return self.opaque(n, 'constant')

    def x_Name(self, n, st):
        return constrain(self.lookup(st, self.mangle(n.id), n), st.pc)

    def mangle(self, name):
        if name.startswith('__') and not name.endswith('__') and self.frames and self.frames[-1].owner is not None:
            return '_%s%s' % (self.frames[-1].owner.name.lstrip('_'), name)
        return name

    def x_Attribute(self, n, st):
        o = self.expr(n.value, st)
        return self.getattr(st, o, self.mangle(n.attr), n)

    def x_Tuple(self, n, st):
        vs = self.elts(n.elts, st)
        if vs is None:
            return self.opaque(n, 'starred tuple')
        return self.tup(vs)

    def tup(self, vs):
        if not vs:
            return mk('tup', ())
        if sum(1 for v in vs if v.op == 'ite') <= 1 or len(vs) <= 4:
            return liftn(lambda *it: mk('tup', it), vs)
        return mk('tup', tuple(vs))

    def elts(self, elts, st):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.iter_seq(st, self.expr(e.value, st), e)
                if s.op != 'seq' or any(p.op != 'e' for p in s.args[0]):
                    return None
                out += [p.args[0] for p in s.args[0]]
            else:
                out.append(self.expr(e, st))
        return out

    def x_List(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            s = EMPTYSEQ
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    s = concat(s, self.iter_seq(st, self.expr(e.value, st), e))
                else:
                    s = concat(s, seq(self.expr(e, st)))
            return self.new_list(st, s, n)
        return self.new_list(st, seq(*[self.expr(e, st) for e in n.elts]), n)

    def x_Set(self, n, st):
        return self.new_list(st, seq(*[self.expr(e, st) for e in n.elts]), n, 'set')

    def x_Dict(self, n, st):
        r = self.alloc(st, 'dict', n)
        st.m[(r.args[0], '$items')] = EMPTYSEQ
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.expr(v, st)
                for kk, vv in self.dict_const_items(st, src, n):
                    self.dict_set(st, r, kk, vv, n)
                continue
            kk = self.expr(k, st)
            vv = self.expr(v, st)
            self.dict_set(st, r, kk, vv, n)
        return r

    def x_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.expr(v.value, st)
                spec = self.x_JoinedStr(v.format_spec, st) if v.format_spec is not None else C('')
                parts.append(self.fmt_term(st, x, spec, {97: 'r', 114: 'r', 115: 's', -1: ''}.get(v.conversion, ''), n))
        return strcat(parts)

    def x_IfExp(self, n, st):
        c = constrain(self.truth(st, self.expr(n.test, st), n.test), st.pc)
        return self.cond(st, c, lambda s: self.expr(n.body, s), lambda s: self.expr(n.orelse, s))

    def cond(self, st, c, fa, fb):
        """value of fa where c else fb; effects merged into st"""
        if c is TRUE:
            return fa(st)
        if c is FALSE:
            return fb(st)
        from .interp import Raise
        a = State(dict(st.m), band(st.pc, c))
        b = State(dict(st.m), band(st.pc, bnot(c)))
        if a.pc is FALSE:
            return fb(st)
        if b.pc is FALSE:
            return fa(st)
        va = vb = None
        try:
            va = fa(a)
        except Raise:
            a = None
        try:
            vb = fb(b)
        except Raise:
            b = None
        if a is None and b is None:
            raise Raise()
        m = self.merge(c, a, b)
        st.m, st.pc = m.m, m.pc
        if a is None:
            return vb
        if b is None:
            return va
        return ite(c, va, vb)

    def x_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)

        def rest(k, s):
            v = self.expr(n.values[k], s)
            if k == len(n.values) - 1:
                return v
            c = constrain(self.truth(s, v, n.values[k]), s.pc)
            if isand:
                return self.cond(s, c, lambda q: rest(k + 1, q), lambda q: v)
            return self.cond(s, c, lambda q: v, lambda q: rest(k + 1, q))
        return rest(0, st)

    def x_UnaryOp(self, n, st):
        v = self.expr(n.operand, st)
        if isinstance(n.op, ast.Not):
            return bnot(self.truth(st, v, n))
        if isinstance(n.op, ast.USub):
            return self.lift_eff(st, v, lambda s, x: self.neg_leaf(s, x, n))
        if isinstance(n.op, ast.UAdd):
            def pos(s_, x):
                m = self.find_method(s_, x, '__pos__') if x.op == 'ref' else None
                return self.call(s_, m, [], {}, n) if m is not None else x
            return self.lift_eff(st, v, pos)
        return self.opaque(n, 'unary')

    def neg_leaf(self, st, x, n):
        if isnumlike(x):
            return neg(asnum(x))
        if x.op == 'cx':
            return mk('cx', neg(x.args[0]), neg(x.args[1]))
        if x.op == 'ref':
            m = self.find_method(st, x, '__neg__')
            if m is not None:
                return self.call(st, m, [], {}, n)
        if x is NONE or isstr(x):
            self.raise_(st, TRUE, 'TypeError', n, 'negation')
        return neg(asnum(x))

    def lift_eff(self, st, v, f):
        """apply f(state, leaf) to the leaves with effects; merges the states"""
        if v.op != 'ite':
            return f(st, v)
        a = v.args[0]
        # leaves with the same effects are common: try pure evaluation per leaf
        ls = leaves(v)
        if len(ls) == 1:
            return f(st, ls[0])
        groups = ls
        if len(groups) > 400:
            raise Limit('leaves')
        res = None
        outs = []
        m0, pc0 = st.m, st.pc
        for l in groups:
            g = lift1(lambda x: B(x is l), v)
            pc = band(pc0, g)
            if pc is FALSE:
                continue
            outs.append((l, g, pc))
        from .interp import Raise
        if len(outs) == 1:
            return f(st, outs[0][0])
        val = None
        state = None
        for l, g, pc in outs:
            s = State(dict(m0), pc)
            try:
                r = f(s, l)
            except Raise:
                continue
            if state is None:
                state, val = s, r
            else:
                val = ite(g, r, val)
                if s.m == m0 and state.m == m0:
                    state.pc = bor(state.pc, s.pc)
                else:
                    state = self.merge(g, s, state)
        if state is None:
            raise Raise()
        st.m, st.pc = state.m, state.pc
        return val

    def lift_eff2(self, st, a, b, f):
        if a.op != 'ite' and b.op != 'ite':
            return f(st, a, b)
        if a.op == 'ite' and b.op != 'ite':
            return self.lift_eff(st, a, lambda s, x: f(s, x, b))
        return self.lift_eff(st, a, lambda s, x: self.lift_eff(s, constrain(b, s.pc), lambda s2, y: f(s2, x, y)))

    def x_BinOp(self, n, st):
        a = self.expr(n.left, st)
        b = self.expr(n.right, st)
        return self.binop(st, OPS.get(type(n.op), '?'), a, b, n)

    def binop(self, st, op, a, b, n):
        pure = self.pure_bin(op, a, b)
        if pure is None:
            pure = self.lift_eff2(st, a, b, lambda s, x, y: self.bin_leaf(s, op, x, y, n))
        return lift1(self.capped, pure) if self.cap else pure

    cap = None      # size beyond which a number is kept as one opaque term (equal numbers stay equal terms)

    def capped(self, p):
        if p.op == 'cx':
            return mk('cx', self.capped(p.args[0]), self.capped(p.args[1]))
        return num_app('big', p) if p.op == 'p' and len(p.args[0]) > self.cap else p

    def pure_bin(self, op, a, b):
        """numeric operators on number diagrams without effects"""
        if op not in '+-*' or op == '**':
            if op == '|' or op == '&':
                if all(l is TRUE or l is FALSE for l in leaves(a)) and all(l is TRUE or l is FALSE for l in leaves(b)):
                    return bor(a, b) if op == '|' else band(a, b)
            return None
        if all(l.op == 'p' for l in leaves(a)) and all(l.op == 'p' for l in leaves(b)):
            if op == '+':
                return lift2(padd, a, b)
            if op == '-':
                return lift2(lambda x, y: padd(x, y, -1), a, b)
            return lift2(pmul, a, b)
        if op == '+' and all(isstr(l) for l in leaves(a)) and all(isstr(l) for l in leaves(b)):
            return strcat([a, b])
        return None

    def bin_leaf(self, st, op, a, b, n):
        if a.op == 'cx' or b.op == 'cx':
            return self.cx_bin(st, op, a, b, n)
        if isnumlike(a) and isnumlike(b):
            a, b = asnum(a), asnum(b)
            if op == '+':
                return padd(a, b)
            if op == '-':
                return padd(a, b, -1)
            if op == '*':
                return pmul(a, b)
            if op in '/' and op == '/':
                self.raise_(st, eq_zero(b), 'ZeroDivisionError', n, 'division')
                return pdiv(a, b)
            if op == '//':
                self.raise_(st, eq_zero(b), 'ZeroDivisionError', n, 'division')
                q = pdiv(a, b)
                return q if is_int(q) else num_app('floor', q)
            if op == '%':
                self.raise_(st, eq_zero(b), 'ZeroDivisionError', n, 'modulo')
                if is_num_const(a) and is_num_const(b) and num_val(b):
                    return num(num_val(a) % num_val(b))
                return num_app('mod', a, b)
            if op == '**':
                if is_num_const(b) and num_val(b).denominator == 1 and 0 <= num_val(b) <= 6:
                    r = num(1)
                    for _ in range(int(num_val(b))):
                        r = pmul(r, a)
                    return r
                if is_num_const(b) and num_val(b) == Fraction(1, 2):
                    return self.sqrt(a)
                return num_app('pow', a, b)
            if op in '|&' and is_num_const(a) and is_num_const(b):
                x, y = int(num_val(a)), int(num_val(b))
                return num(x | y if op == '|' else x & y)
            return num_app('bit' + op, a, b)
        if op == '%' and isstr(a):
            return self.percent(st, a, b, n)
        if op == '+' and isstr(a) and isstr(b):
            return strcat([a, b])
        if op == '*' and (isstr(a) and isnumlike(b) or isstr(b) and isnumlike(a)):
            s, k = (a, b) if isstr(a) else (b, a)
            if s.op == 'c' and is_num_const(asnum(k)):
                return C(s.args[1] * int(num_val(asnum(k))))
            return app('str', app('repeat', s, k))
        if a.op == 'ref' and b.op == 'ref' and op == '+' and self.is_listlike(a) and self.is_listlike(b):
            m = self.find_method(st, a, '__add__')
            if m is None:
                cls = self.class_of(a.args[0])
                s = concat(self.content(st, a), self.content(st, b))
                return self.new_list(st, s, n, cls if cls in ('set', 'array') else 'list')
        if op == '*' and (a.op == 'ref' and isnumlike(b) or b.op == 'ref' and isnumlike(a)):
            l, k = (a, b) if a.op == 'ref' else (b, a)
            if self.is_listlike(l):
                c = self.content(st, l)
                k = asnum(k)
                if c.op == 'seq' and is_num_const(k):
                    return self.new_list(st, seq_parts(list(c.args[0]) * max(0, int(num_val(k)))), n)
                i = self.fresh_idx(k)
                return self.new_list(st, fm(k, i, c), n)
        if a.op == 'tup' and b.op == 'tup' and op == '+':
            return mk('tup', a.args[0] + b.args[0])
        if op in '|&-' and a.op == 'ref' and b.op == 'ref' and self.class_of(a.args[0]) == 'set':
            return self.set_op(st, op, a, b, n)
        if a.op == 'ref':
            m = self.find_method(st, a, '__%s__' % DUNDER.get(op, op))
            if m is None and op == '/':
                m = self.find_method(st, a, '__div__')
            if m is not None:
                return self.call(st, m, [b], {}, n)
        if b.op == 'ref':
            m = self.find_method(st, b, '__r%s__' % DUNDER.get(op, op))
            if m is not None:
                return self.call(st, m, [a], {}, n)
        if a is NONE or b is NONE or (isstr(a) and isnumlike(b)) or (isstr(b) and isnumlike(a)) or \
                (op == '+' and ((a.op == 'ref') != (b.op == 'ref')) and (isnumlike(a) or isnumlike(b) or isstr(a) or isstr(b))):
            self.raise_(st, TRUE, 'TypeError', n, 'operands of %s' % op)
            return self.opaque(n, 'type error', quiet=True)
        if self.unk_leaf(a) or self.unk_leaf(b):
            if op in '+-*' and (isnumlike(a) or a.op in ('sym', 'app')) and (isnumlike(b) or b.op in ('sym', 'app')):
                x, y = asnum(a), asnum(b)
                return padd(x, y) if op == '+' else padd(x, y, -1) if op == '-' else pmul(x, y)
            if op == '/':
                return pdiv(asnum(a), asnum(b)) if b.op in ('p', 'sym', 'app') and a.op in ('p', 'sym', 'app') else app('div', a, b)
            return app('bin' + op, a, b)
        if op == '%' :
            return app('mod', a, b)
        return self.opaque(n, 'operator %s on %s, %s' % (op, a.op, b.op))

    def unk_leaf(self, x):
        return x.op in ('sym', 'app')

    def sqrt(self, p):
        if is_num_const(p):
            v = num_val(p)
            if v >= 0:
                from math import isqrt
                a, b = isqrt(v.numerator), isqrt(v.denominator)
                if a * a == v.numerator and b * b == v.denominator:
                    return num(Fraction(a, b))
        q = poly_root(p)
        if q is not None:
            return ite(lt_zero(q), neg(q), q)
        return num_app('sqrt', p)

    def cx_bin(self, st, op, a, b, n):
        def cx(x):
            return x if x.op == 'cx' else mk('cx', asnum(x), num(0)) if x.op in ('p', 'sym', 'app') or isnumlike(x) else None
        x, y = cx(a), cx(b)
        if x is None or y is None:
            return self.opaque(n, 'complex operand')
        (ar, ai), (br, bi) = x.args, y.args
        if op == '+':
            return mk('cx', padd(ar, br), padd(ai, bi))
        if op == '-':
            return mk('cx', padd(ar, br, -1), padd(ai, bi, -1))
        if op == '*':
            return mk('cx', padd(pmul(ar, br), pmul(ai, bi), -1), padd(pmul(ar, bi), pmul(ai, br)))
        if op == '/':
            if b.op != 'cx':
                self.raise_(st, eq_zero(br), 'ZeroDivisionError', n, 'division')
                return mk('cx', pdiv(ar, br), pdiv(ai, br))
            d = padd(pmul(br, br), pmul(bi, bi))
            re = padd(pmul(ar, br), pmul(ai, bi))
            im = padd(pmul(ai, br), pmul(ar, bi), -1)
            return mk('cx', pdiv(re, d), pdiv(im, d))
        return self.opaque(n, 'complex operator')

    # ------------------------------------------------------------ comparisons

    def x_Compare(self, n, st):
        left = self.expr(n.left, st)

        def step(k, l, s):
            r = self.expr(n.comparators[k], s)
            c = self.compare(s, n.ops[k], l, r, n)
            if k == len(n.ops) - 1:
                return c
            c = constrain(c, s.pc)
            return self.cond(s, c, lambda q: step(k + 1, r, q), lambda q: FALSE)
        return step(0, left, st)

    def compare(self, st, op, a, b, n):
        t = type(op)
        if t is ast.Eq:
            return self.eq(st, a, b, n)
        if t is ast.NotEq:
            return self.ne(st, a, b, n)
        if t is ast.Is:
            return lift2(self.is_leaf, a, b)
        if t is ast.IsNot:
            return bnot(lift2(self.is_leaf, a, b))
        if t is ast.In:
            return self.contains(st, b, a, n)
        if t is ast.NotIn:
            return bnot(self.contains(st, b, a, n))
        if t is ast.Lt:
            return self.less(st, a, b, n)
        if t is ast.Gt:
            return self.less(st, b, a, n)
        if t is ast.LtE:
            return bnot(self.less(st, b, a, n))
        if t is ast.GtE:
            return bnot(self.less(st, a, b, n))
        return self.opaque(n, 'comparison')

    def is_leaf(self, a, b):
        if a is b:
            return TRUE
        if a is NONE:
            return is_none(b)
        if b is NONE:
            return is_none(a)
        if a.op == 'ref' and b.op == 'ref':
            return self.same_obj(a.args[0], b.args[0])
        if a.op == 'c' and b.op == 'c':
            return FALSE
        if a.op in ('cls', 'bi', 'fn', 'mod') and b.op in ('cls', 'bi', 'fn', 'mod'):
            return FALSE
        if {a, b} & {TRUE, FALSE} and (a.op in ('p', 'ref', 'cat') or b.op in ('p', 'ref', 'cat')):
            return FALSE
        return self.opaque_same(a, b)

    def opaque_same(self, a, b):
        if a.id > b.id:
            a, b = b, a
        return lit(atom('same', a, b))

    def same_obj(self, s, t):
        """identity of two object terms"""
        if s is t:
            return TRUE
        cs, ct = self.class_of(s), self.class_of(t)

        def fresh(x):
            return x.op == 'obj' or (x.op == 'app' and x.args[0] == 'inst')
        if fresh(s) and fresh(t):
            if s.op == 'obj' or t.op == 'obj' or s.args[1] is not t.args[1]:
                return FALSE
            c = TRUE
            for x, y in zip(s.args[2:], t.args[2:]):
                c = band(c, eq_zero(padd(x, y, -1)))
            return c
        if fresh(s) or fresh(t):
            # an object that exists before the run is not one allocated by it, except loop heads
            o = t if fresh(s) else s
            if not self.may_alias_fresh(o):
                return FALSE
            return self.opaque_same(s, t)
        if s.op == 'app' and t.op == 'app' and s.args[0] == 'at' and t.args[0] == 'at' and s.args[1] is t.args[1]:
            e = eq_zero(padd(s.args[2], t.args[2], -1))
            if self.distinct_elems:
                return e
            return bor(e, self.opaque_same(s, t)) if e is not FALSE else self.opaque_same(s, t)
        bs, bt = self.base_names(cs), self.base_names(ct)
        if bs and bt and not (set(bs) & set(bt) - {'object'}):
            return FALSE
        return self.opaque_same(s, t)

    def may_alias_fresh(self, t):
        for x in syms(t):
            if x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith(('h:', 'unk:')):
                return True
        return False

    def base_names(self, c):
        if isinstance(c, Cls):
            return [str(x) for x in c.base_names()]
        if isinstance(c, str):
            return [c.split(':')[0]]
        return None

    def eq(self, st, a, b, n):
        if a is b and not self.has_eq(a):
            return TRUE
        return self.lift_cmp(st, a, b, lambda s, x, y: self.eq_leaf(s, x, y, n))

    def ne(self, st, a, b, n):
        def f(s, x, y):
            m = self.find_method(s, x, '__ne__') if x.op == 'ref' else None
            if m is not None:
                return self.truth(s, self.call(s, m, [y], {}, n), n)
            return bnot(self.eq_leaf(s, x, y, n))
        return self.lift_cmp(st, a, b, f)

    def has_eq(self, v):
        return any(l.op == 'ref' and isinstance(self.class_of(l.args[0]), Cls) and
                   self.class_of(l.args[0]).find('__eq__')[0] is not None for l in leaves(v))

    def lift_cmp(self, st, a, b, f):
        if any(l.op == 'ref' for l in leaves(a)) or any(l.op == 'ref' for l in leaves(b)):
            return self.lift_eff2(st, a, b, f)
        return lift2(lambda x, y: f(st, x, y), a, b)

    def eq_leaf(self, st, a, b, n):
        if a is b:
            if a.op == 'ref' and self.find_method(st, a, '__eq__') is not None:
                pass
            else:
                return TRUE
        if a is NONE:
            return is_none(b)
        if b is NONE:
            return is_none(a)
        if isnumlike(a) and isnumlike(b):
            return eq_zero(padd(asnum(a), asnum(b), -1))
        if a.op == 'ref':
            m = self.find_method(st, a, '__eq__')
            if m is not None:
                return self.truth(st, self.call(st, m, [b], {}, n), n)
        if b.op == 'ref' and a.op != 'ref':
            m = self.find_method(st, b, '__eq__')
            if m is not None:
                return self.truth(st, self.call(st, m, [a], {}, n), n)
        if a.op == 'c' and b.op == 'c':
            return B(a.args[1] == b.args[1])
        if a.op == 'tup' and b.op == 'tup':
            if len(a.args[0]) != len(b.args[0]):
                return FALSE
            c = TRUE
            for x, y in zip(a.args[0], b.args[0]):
                c = band(c, self.eq(st, x, y, n))
            return c
        if a.op == 'c' and isinstance(a.args[1], str) and (isstr(b) or self.unk_leaf(b)):
            return str_test('streq', b, a.args[1])
        if b.op == 'c' and isinstance(b.args[1], str) and (isstr(a) or self.unk_leaf(a)):
            return str_test('streq', a, b.args[1])
        if isstr(a) and isstr(b):
            return self.str_eq(a, b)
        if a.op == 'ref' and b.op == 'ref':
            if self.is_listlike(a) and self.is_listlike(b):
                x, y = self.content(st, a), self.content(st, b)
                return lift2(self.seq_eq, x, y)
            return self.same_obj(a.args[0], b.args[0])
        if self.unk_leaf(a) or self.unk_leaf(b):
            if isnumlike(a) or isnumlike(b):
                return eq_zero(padd(asnum(a), asnum(b), -1))
            return self.opaque_same(a, b)
        if a.op == 'cx' and b.op == 'cx':
            return band(eq_zero(padd(a.args[0], b.args[0], -1)), eq_zero(padd(a.args[1], b.args[1], -1)))
        if a.op in ('cls', 'bi', 'fn', 'mod') and b.op in ('cls', 'bi', 'fn', 'mod'):
            return B(a is b)
        return FALSE

    def str_eq(self, a, b):
        if a.op == 'cat' or b.op == 'cat':
            # strip the common constant prefix
            pa = a.args[0] if a.op == 'cat' else (a,)
            pb = b.args[0] if b.op == 'cat' else (b,)
            if pa[0].op == 'c' and pb[0].op == 'c':
                x, y = pa[0].args[1], pb[0].args[1]
                k = min(len(x), len(y))
                if x[:k] != y[:k]:
                    return FALSE
        return self.opaque_same(a, b)

    def seq_eq(self, x, y):
        if x is y:
            return TRUE
        if not x.args[0] or not y.args[0]:
            return eq_zero_d(seq_len(y if not x.args[0] else x))
        if all(p.op == 'e' for p in x.args[0]) and all(p.op == 'e' for p in y.args[0]):
            if len(x.args[0]) != len(y.args[0]):
                return FALSE
            c = TRUE
            for p, q in zip(x.args[0], y.args[0]):
                c = band(c, lift2(lambda u, w: self.eq_leaf(None, u, w, None), p.args[0], q.args[0]))
            return c
        return self.opaque_same(x, y)

    def less(self, st, a, b, n):
        def f(s, x, y):
            if isnumlike(x) and isnumlike(y):
                return lt_zero(padd(asnum(x), asnum(y), -1))
            if x.op == 'c' and y.op == 'c' and type(x.args[1]) is type(y.args[1]) and isinstance(x.args[1], str):
                return B(x.args[1] < y.args[1])
            if x.op == 'tup' and y.op == 'tup':
                res = B(len(x.args[0]) < len(y.args[0]))
                for p, q in reversed(list(zip(x.args[0], y.args[0]))):
                    res = ite(self.eq(s, p, q, n), res, self.less(s, p, q, n))
                return res
            if x.op == 'ref':
                m = self.find_method(s, x, '__lt__')
                if m is not None:
                    return self.truth(s, self.call(s, m, [y], {}, n), n)
            if x is NONE or y is NONE or isstr(x) != isstr(y) and not (self.unk_leaf(x) or self.unk_leaf(y)):
                self.raise_(s, TRUE, 'TypeError', n, 'ordering of %s and %s' % (show(x), show(y)))
                return lit(atom('less', x, y))
            if (self.unk_leaf(x) or isnumlike(x)) and (self.unk_leaf(y) or isnumlike(y)) and not isstr(x) and not isstr(y):
                return lt_zero(padd(asnum(x), asnum(y), -1))
            return lit(atom('less', x, y))
        if all(isnumlike(l) for l in leaves(a)) and all(isnumlike(l) for l in leaves(b)):
            return lift2(lambda x, y: f(st, x, y), a, b)
        return self.lift_eff2(st, a, b, f)

    def contains(self, st, cont, x, n):
        def f(s, c, y):
            if c.op == 'tup':
                r = FALSE
                for e in c.args[0]:
                    r = bor(r, self.eq(s, e, y, n))
                return r
            if isstr(c):
                if y.op == 'c' and isinstance(y.args[1], str):
                    return str_test('in', c, y.args[1])
                if c.op == 'c' and isstr(y):
                    return self.in_const(c.args[1], y)
                return lit(atom('in2', c, y))
            if c.op == 'ref':
                if self.class_of(c.args[0]) == 'dict':
                    return self.dict_has(s, c, y, n)
                m = self.find_method(s, c, '__contains__')
                if m is not None:
                    return self.truth(s, self.call(s, m, [y], {}, n), n)
                sq = self.iter_seq(s, c, n)
                return lift1(lambda q: self.seq_has(s, q, y, n), sq)
            if c.op in ('sym', 'app'):
                return lit(atom('member', c, y))
            if c is NONE or isnumlike(c):
                self.raise_(s, TRUE, 'TypeError', n, 'membership')
                return FALSE
            return self.truth(s, self.opaque(n, 'membership in ' + c.op), n)
        return self.lift_eff2(st, cont, x, f)

    def in_const(self, big, y):
        """y a substring of the constant: enumerate when y is one character long"""
        if y.op == 'app' and y.args[0] == 'first':
            return bor(str_test('streq', y, ''), *[str_test('streq', y, ch) for ch in sorted(set(big))])
        return lit(atom('substr_of', y, C(big)))

    def seq_has(self, st, q, y, n):
        r = FALSE
        for p in q.args[0]:
            if p.op == 'e':
                r = bor(r, self.eq(st, p.args[0], y, n))
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                e = at_base(p.args[0], padd(p.args[1], poly_of(i)))
                k = self.elem_kind_of(p.args[0])
                if k is not None:
                    e = self.symbolic_elem(e, k)
                r = bor(r, any_(cnt, i, self.eq(st, e, y, n)))
            else:
                body = lift1(lambda b: self.seq_has(st, b, y, n), p.args[2])
                r = bor(r, any_(p.args[0], p.args[1], body))
        return r

    def elem_kind_of(self, base):
        k = base.args[2] if base.op == 'sym' and len(base.args) > 2 else None
        if base.op == 'app' and base.args[0] in ('items', 'seqof'):
            k = base.args[-1]
        return k if isinstance(k, str) else None

    def symbolic_elem(self, e, kind):
        if kind in ('num?', 'str', 'str?', 'bool', 'int?'):
            t = e
            if e.op == 'p':
                t = e.args[0][0][0][0][0]
            return self.symbolic(t, kind)
        return e

    def fresh_idx(self, count):
        """generic index for an expression level quantifier: deeper than every active index"""
        d = len(self.active_idx)
        self.qdepth = max(getattr(self, 'qdepth', 0), d)
        return idx_sym(count, d)

    # ------------------------------------------------------------ truth

    def truth(self, st, v, n=None):
        if v.op == 'ite' and all(l is TRUE or l is FALSE for l in leaves(v)):
            return v
        if any(l.op == 'ref' for l in leaves(v)):
            return self.lift_eff(st, v, lambda s, x: self.truth_leaf(s, x, n))
        return lift1(lambda x: self.truth_leaf(st, x, n), v)

    def truth_leaf(self, st, x, n):
        if x is TRUE or x is FALSE:
            return x
        if x.op == 'c':
            return B(bool(x.args[1]))
        if x.op == 'p':
            return bnot(eq_zero(x))
        if x.op == 'tup':
            return B(bool(x.args[0]))
        if x.op == 'cat':
            if any(p.op == 'c' for p in x.args[0]):
                return TRUE
            return bor(*[self.truth_leaf(st, p, n) for p in x.args[0]])
        if isstr(x):
            if x.op == 'app' and x.args[0] == 'fmt':
                return TRUE
            return bnot(str_test('streq', x, ''))
        if x.op == 'ref':
            c = self.class_of(x.args[0])
            if isinstance(c, Cls):
                m = self.find_method(st, x, '__bool__') or self.find_method(st, x, '__len__')
                if m is not None:
                    return self.truth(st, self.call(st, m, [], {}, n), n)
            if self.is_listlike(x):
                ln = lift1(seq_len, self.content(st, x))
                return lift1(lambda p: bnot(eq_zero(p)), ln)
            if c == 'dict':
                ln = lift1(seq_len, self.read(st, x.args[0], '$items'))
                return lift1(lambda p: bnot(eq_zero(p)), ln)
            return TRUE
        if x.op in ('fn', 'cls', 'bi', 'mod', 'bound', 'partial', 'rematch'):
            return TRUE
        if x.op == 'cx':
            return bnot(band(eq_zero(x.args[0]), eq_zero(x.args[1])))
        if x.op == 'app' and x.args[0] == 'match':
            return bnot(is_none(x))
        if x.op in ('sym', 'app'):
            return lit(atom('truthy', x))
        if x.op in ('absent', 'undef'):
            return FALSE
        return self.truth_leaf(st, self.opaque(n, 'truth of ' + x.op), n)

    # ------------------------------------------------------------ subscripts

    def x_Subscript(self, n, st):
        o = self.expr(n.value, st)
        if isinstance(n.slice, ast.Slice):
            lo = self.expr(n.slice.lower, st) if n.slice.lower else NONE
            hi = self.expr(n.slice.upper, st) if n.slice.upper else NONE
            sp = self.expr(n.slice.step, st) if n.slice.step else NONE
            return self.lift_eff(st, o, lambda s, x: self.slice_leaf(s, x, lo, hi, sp, n))
        k = self.expr(n.slice, st)
        return self.lift_eff2(st, o, k, lambda s, x, y: self.index_leaf(s, x, y, n))

    def index_leaf(self, st, x, k, n):
        if x.op == 'tup':
            if k.op == 'p' and is_num_const(k):
                i = int(num_val(k))
                if -len(x.args[0]) <= i < len(x.args[0]):
                    return x.args[0][i]
                self.raise_(st, TRUE, 'IndexError', n, 'tuple index')
                return self.opaque(n, 'index', quiet=True)
            r = self.opaque(n, 'tuple index')
            return r
        if isstr(x):
            return self.str_index(st, x, k, n)
        if x.op == 'ref':
            c = self.class_of(x.args[0])
            if c == 'dict':
                return self.dict_get(st, x, k, n)
            m = self.find_method(st, x, '__getitem__')
            if m is not None:
                return self.call(st, m, [k], {}, n)
            if self.is_listlike(x):
                sq = self.content(st, x)
                k = self.norm_index(st, sq, asnum(k), n)
                return self.lift_eff2(st, k, sq, lambda s, kk, q: self.seq_get(s, q, kk, n))
        if x is NONE or isnumlike(x):
            self.raise_(st, TRUE, 'TypeError', n, 'subscript')
            return self.opaque(n, 'subscript', quiet=True)
        return self.ext_index(st, x, k, n)

    def norm_index(self, st, sq, k, n):
        """python index -> non negative index; IndexError obligations"""
        ln = lift1(seq_len, sq)

        def f(kk, l):
            return ite(lt_zero(kk), padd(kk, l), kk)
        r = lift2(f, k, ln)
        r = constrain(r, st.pc)
        bad = lift2(lambda kk, l: bor(lt_zero(kk), bnot(lt_zero(padd(kk, l, -1)))), r, ln)
        self.raise_(st, constrain(bad, st.pc), 'IndexError', n, 'index out of range')
        return constrain(r, st.pc)

    def seq_get(self, st, q, k, n=None):
        """element k (0 <= k < len assumed) of a sequence leaf"""
        parts = list(q.args[0])
        if not parts:
            return self.opaque(n, 'element of an empty sequence', quiet=True)
        from_end = self.from_end(q, k)
        if from_end is not None:
            return from_end
        p = parts[0]
        rest = mk('seq', tuple(parts[1:]))
        if p.op == 'e':
            if not parts[1:]:
                return p.args[0]
            z = constrain(eq_zero(k), st.pc) if st is not None else eq_zero(k)
            if z is TRUE:
                return p.args[0]
            r = self.seq_get(st, rest, padd(k, num(-1)), n)
            return ite(z, p.args[0], r)
        if p.op == 's':
            cnt = padd(p.args[2], p.args[1], -1)
            e = at_base(p.args[0], padd(p.args[1], k))
            kd = self.elem_kind_of(p.args[0])
            if kd is not None:
                e = self.symbolic_elem(e, kd)
            if not parts[1:]:
                return e
            c = lt_zero(padd(k, cnt, -1))
            if st is not None:
                c = constrain(c, st.pc)
            if c is TRUE:
                return e
            return ite(c, e, self.seq_get(st, rest, padd(k, cnt, -1), n))
        # flat map: only with one element per iteration
        body = p.args[2]
        if all(l.op == 'seq' and len(l.args[0]) == 1 and l.args[0][0].op == 'e' for l in leaves(body)):
            e = lift1(lambda l: l.args[0][0].args[0], body)
            e = subst(e, {p.args[1]: k})
            if not parts[1:]:
                return e
            cnt = p.args[0]
            c = lt_zero(padd(k, cnt, -1))
            if st is not None:
                c = constrain(c, st.pc)
            if c is TRUE:
                return e
            return ite(c, e, self.seq_get(st, rest, padd(k, cnt, -1), n))
        return app('at', q, k)

    def from_end(self, q, k):
        """k = len - c: pick from the known tail"""
        parts = q.args[0]
        ln = seq_len(q)
        if ln.op != 'p':
            return None
        d = padd(ln, k, -1)
        if not is_num_const(d):
            return None
        c = int(num_val(d))
        if 1 <= c <= len(parts) and all(p.op == 'e' for p in parts[len(parts) - c:]):
            return parts[len(parts) - c].args[0]
        # the tail lies in a slice part followed by c-1.. elements
        j = len(parts) - 1
        while j >= 0 and parts[j].op == 'e' and c > 0:
            c -= 1
            j -= 1
        if j >= 0 and parts[j].op == 's' and c >= 1:
            if j == 0 or len(parts) == 1:
                e = at_base(parts[j].args[0], padd(parts[j].args[2], num(-c)))
                kd = self.elem_kind_of(parts[j].args[0])
                return self.symbolic_elem(e, kd) if kd else e
        return None

    def slice_bounds(self, st, ln, lo, hi):
        def clamp(k, dflt):
            if k is NONE:
                return dflt
            if k.op == 'ite' and NONE in leaves(k):
                return lift1(lambda x: clamp1(asnum(x)) if x is not NONE else dflt, k)
            return lift1(lambda x: clamp1(asnum(x)), k)

        def clamp1(k):
            def g(l):
                neg_ = padd(k, l)
                a = ite(lt_zero(neg_), num(0), neg_)
                b = ite(lt_zero(padd(l, k, -1)), l, k)
                return ite(lt_zero(k), a, b)
            return lift1(g, ln)
        lo2 = constrain(clamp(lo, num(0)), st.pc)
        hi2 = constrain(clamp(hi, ln), st.pc)
        # hi >= lo
        hi2 = lift2(lambda h, l: ite(lt_zero(padd(h, l, -1)), l, h), hi2, lo2)
        return lo2, constrain(hi2, st.pc)

    def slice_leaf(self, st, x, lo, hi, sp, n):
        if x.op == 'tup':
            vals = [v for v in (lo, hi, sp)]
            if all(v is NONE or (v.op == 'p' and is_num_const(v)) for v in vals):
                a, b, c = [None if v is NONE else int(num_val(v)) for v in vals]
                return mk('tup', x.args[0][a:b:c])
            return self.opaque(n, 'tuple slice')
        if isstr(x):
            return self.str_slice(st, x, lo, hi, sp, n)
        if x.op == 'ref' and self.is_listlike(x):
            sq = self.content(st, x)
            if sp is not NONE and not (is_num_const(sp) and num_val(sp) == 1):
                if is_num_const(sp) and num_val(sp) == -1 and lo is NONE and hi is NONE:
                    return self.new_list(st, lift1(self.seq_rev, sq), n)
                return self.new_list(st, lift1(lambda q: mk('seq', (mk('s', app('stepslice', q, lo, hi, sp), num(0),
                                                                      len_base(app('stepslice', q, lo, hi, sp))),)), sq), n)
            r = lift1(lambda q: self.seq_slice(st, q, lo, hi), sq)
            c = self.class_of(x.args[0])
            return self.new_list(st, r, n, c if c in ('array',) else 'list')
        if x.op in ('sym', 'app'):
            return app('slice', x, lo, hi, sp)
        return self.opaque(n, 'slice of ' + x.op)

    def seq_rev(self, q):
        out = []
        for p in reversed(q.args[0]):
            if p.op == 'e':
                out.append(p)
            elif p.op == 's':
                cnt = padd(p.args[2], p.args[1], -1)
                i = self.fresh_idx(cnt)
                e = at_base(p.args[0], padd(padd(p.args[2], num(-1)), poly_of(i), -1))
                out.append(mk('fm', cnt, i, seq(e)))
            else:
                cnt, i, body = p.args
                j = padd(padd(cnt, num(-1)), poly_of(i), -1)
                b = lift1(self.seq_rev, subst(body, {i: j}))
                out.append(mk('fm', cnt, i, b))
        return seq_parts(out)

    def seq_slice(self, st, q, lo, hi):
        ln = seq_len(q)
        lo2, hi2 = self.slice_bounds(st, ln, lo, hi)
        return liftn(lambda l, h, n_: self.seq_cut(st, q, l, h, n_), [lo2, hi2, ln])

    def seq_cut(self, st, q, lo, hi, ln):
        """elements lo <= k < hi (0 <= lo <= hi <= len)"""
        if lo is hi:
            return EMPTYSEQ
        a = self.seq_drop(st, q, lo)
        if hi is ln:
            return a
        return lift1(lambda s: self.seq_take(st, s, padd(hi, lo, -1)), a)

    def seq_drop(self, st, q, k):
        parts = list(q.args[0])
        pc = st.pc
        if is_num_const(k) and num_val(k) == 0:
            return q
        if not parts:
            return q
        p = parts[0]
        rest = mk('seq', tuple(parts[1:]))
        one = num(1)
        cnt = one if p.op == 'e' else padd(p.args[2], p.args[1], -1) if p.op == 's' else \
            lift1(seq_len, mk('seq', (p,)))
        if cnt.op != 'p':
            return mk('seq', (mk('s', app('drop', q, k), num(0), padd(seq_len(q), k, -1)),))
        if k is cnt:
            return rest
        inside = constrain(lt_zero(padd(k, cnt, -1)), pc)      # k < cnt

        def here():
            if p.op == 'e':
                return q                                        # k <= 0
            if p.op == 's':
                return seq_parts([mk('s', p.args[0], padd(p.args[1], k), p.args[2])] + parts[1:])
            if self.unit_fm(p):
                c2 = padd(cnt, k, -1)
                i = idx_like(p.args[1], c2)
                return seq_parts([mk('fm', c2, i, subst(p.args[2], {p.args[1]: padd(poly_of(i), k)}))] + parts[1:])
            return mk('seq', (mk('s', app('drop', q, k), num(0), padd(seq_len(q), k, -1)),))
        if inside is TRUE:
            return here()
        if not parts[1:]:
            # k <= len: either inside or everything dropped; here() gives an empty slice at k = cnt
            if p.op == 's':
                return here()
            return ite(inside, here(), EMPTYSEQ)
        r = self.seq_drop(st, rest, padd(k, cnt, -1))
        if inside is FALSE:
            return r
        return ite(inside, here(), r)

    def unit_fm(self, p):
        return all(l.op == 'seq' and len(l.args[0]) == 1 and l.args[0][0].op == 'e' for l in leaves(p.args[2]))

    def seq_take(self, st, q, k):
        parts = list(q.args[0])
        pc = st.pc
        if is_num_const(k) and num_val(k) <= 0:
            return EMPTYSEQ
        if not parts:
            return q
        ln = seq_len(q)
        if ln is k:
            return q
        # drop from the end when the tail length is known
        d = padd(ln, k, -1) if ln.op == 'p' else None
        if d is not None and is_num_const(d):
            c = int(num_val(d))
            if c >= 0:
                out = list(parts)
                while c > 0 and out and out[-1].op == 'e':
                    out.pop()
                    c -= 1
                if c == 0:
                    return seq_parts(out)
                if out and out[-1].op == 's':
                    p = out.pop()
                    return seq_parts(out + [mk('s', p.args[0], p.args[1], padd(p.args[2], num(-c)))])
        p = parts[0]
        cnt = num(1) if p.op == 'e' else padd(p.args[2], p.args[1], -1) if p.op == 's' else lift1(seq_len, mk('seq', (p,)))
        if cnt.op != 'p':
            return mk('seq', (mk('s', app('take', q, k), num(0), k),))
        inside = constrain(lt_zero(padd(k, cnt, -1)), pc)

        def here():
            if p.op == 'e':
                return EMPTYSEQ
            if p.op == 's':
                return seq_parts([mk('s', p.args[0], p.args[1], padd(p.args[1], k))])
            if self.unit_fm(p):
                i = idx_like(p.args[1], k)
                return seq_parts([mk('fm', k, i, subst(p.args[2], {p.args[1]: poly_of(i)}))])
            return mk('seq', (mk('s', app('take', q, k), num(0), k),))
        if inside is TRUE:
            return here()
        if not parts[1:] and p.op == 's':
            return here()
        r = concat(mk('seq', (p,)), self.seq_take(st, mk('seq', tuple(parts[1:])), padd(k, cnt, -1)))
        if inside is FALSE:
            return r
        return ite(inside, here(), r)

    # ------------------------------------------------------------ functions

    def x_Lambda(self, n, st):
        return self.make_func(st, n, '<lambda>')

    def x_Call(self, n, st):
        # super() forms and super-simple specials
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.make_super(n, st)
        f = self.expr(n.func, st)
        args, kw = self.eval_args(n, st)
        return self.lift_eff(st, f, lambda s, x: self.call(s, x, args, kw, n))

    def eval_args(self, n, st):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.star_seq(st, self.expr(a.value, st), a)
                args.append(('*', s))
            else:
                args.append(self.expr(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.expr(k.value, st)
                for kk, vv in self.dict_const_items(st, v, n):
                    kw[kk.args[1] if kk.op == 'c' else kk] = vv
            else:
                kw[k.arg] = self.expr(k.value, st)
        # known starred contents
        out = []
        for a in args:
            if isinstance(a, tuple):
                s = a[1]
                s = constrain(s, st.pc)
                ls = leaves(s)
                if all(l.op == 'seq' and all(p.op == 'e' for p in l.args[0]) for l in ls) and len({len(l.args[0]) for l in ls}) == 1:
                    out += [lift1(lambda l, i=i: l.args[0][i].args[0], s) for i in range(len(ls[0].args[0]))]
                else:
                    out.append(a)
            else:
                out.append(a)
        return out, kw

    def star_seq(self, st, v, n):
        return self.iter_seq(st, v, n)

    def make_super(self, n, st):
        fr = self.frames[-1]
        while fr is not None and fr.owner is None:
            fr = fr.parent
        if n.args:
            c = self.expr(n.args[0], st)
            o = self.expr(n.args[1], st)
            cls = c.args[0] if c.op == 'cls' else None
        else:
            cls = fr.owner if fr else None
            o = st.m.get((fr.term, fr.func.node.args.args[0].arg)) if fr else None
        if cls is None or o is None:
            return self.opaque(n, 'super')
        return mk('super', mk('cls', cls), o)

    def x_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def x_GeneratorExp(self, n, st):
        return self.comp(n, st, 'list')

    def x_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def x_DictComp(self, n, st):
        r = self.comp(n, st, 'items')
        d = self.alloc(st, 'dict', n)
        st.m[(d.args[0], '$items')] = self.content(st, r)
        return d

    def comp(self, n, st, kind):
        fr = self.frames[-1]
        hid = '$lc%d_%d' % (n.lineno, n.col_offset)
        if kind == 'items':
            elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        else:
            elt = n.elt
        body = ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=hid, ctx=ast.Load()), attr='$push', ctx=ast.Load()),
                                       args=[elt], keywords=[]))
        names = set()
        for g in reversed(n.generators):
            for t in g.ifs[::-1]:
                body = ast.If(test=t, body=[body], orelse=[])
            body = ast.For(target=g.target, iter=g.iter, body=[body], orelse=[])
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for x in ast.walk(body):
            if not hasattr(x, 'lineno'):
                x.lineno = n.lineno
                x.col_offset = n.col_offset
                x.end_lineno = x.end_col_offset = 0
        body.comp_id = (n.lineno, n.col_offset)
        lst = self.new_list(st, EMPTYSEQ, n, 'set' if kind == 'set' else 'list')
        # comprehension scope: a child frame
        from .interp import Flow
        sub = Frame(Comp(fr, n), fr.module, fr.owner, fr)
        sub.locals_ = names | {hid}
        sub.captured = True
        st.m[(sub.term, hid)] = lst
        self.frames.append(sub)
        try:
            fl = Flow()
            out = self.block([body], st, fl)
        finally:
            self.frames.pop()
        from .interp import Raise
        if out is None:
            raise Raise()
        st.m, st.pc = out.m, out.pc
        for k in [k for k in st.m if k[0] is sub.term]:
            del st.m[k]
        return lst

    def x_Yield(self, n, st):
        v = self.expr(n.value, st) if n.value is not None else NONE
        fr = self.frames[-1]
        while isinstance(fr.func, Comp):
            fr = fr.parent
        k = (fr.term, '$yield')
        st.m[k] = concat(st.m.get(k, EMPTYSEQ), seq(v))
        return NONE

    def x_YieldFrom(self, n, st):
        v = self.expr(n.value, st)
        fr = self.frames[-1]
        k = (fr.term, '$yield')
        st.m[k] = concat(st.m.get(k, EMPTYSEQ), self.iter_seq(st, v, n))
        return NONE

    def x_NamedExpr(self, n, st):
        v = self.expr(n.value, st)
        self.assign(n.target, v, st)
        return v

    def x_Starred(self, n, st):
        return self.opaque(n, 'starred')

    def x_Slice(self, n, st):
        return self.opaque(n, 'slice object')


def eq_zero_d(v):
    return lift1(eq_zero, v)


class Comp(object):
    """function record of a comprehension scope"""
    def __init__(self, fr, node):
        self.node = node
        f = fr.func
        self.qual = f.qual if f is not None else fr.module.name + '.<module>'
        self.name = '<comp>'
