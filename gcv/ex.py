"""Statements, attributes, calls."""
import ast

from .alg import *
from . import alg
from .state import *
from .ev import DUNDER, BI, isstr, isnumlike, asnum, Comp


class Flow(object):
    """exits of a statement block"""
    __slots__ = ('ret', 'brk', 'cont')

    def __init__(self):
        self.ret = []      # (pc, value, state)
        self.brk = []
        self.cont = []


class Raise(Exception):
    """evaluation of the current expression cannot continue: every path raised"""


_locals = {}


def local_names(fn):
    r = _locals.get(fn)
    if r is not None:
        return r
    names, glob, nonl = set(), set(), set()
    a = fn.args
    for x in list(getattr(a, 'posonlyargs', [])) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
        names.add(x.arg)
    gen = [False]

    def tgt(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                names.add(c.name)
                continue
            if isinstance(c, ast.Lambda):
                continue
            if isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                for g in c.generators:
                    walk(g.iter)
                continue
            if isinstance(c, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split('.')[0])
            if isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            if isinstance(c, ast.Global):
                glob.update(c.names)
            if isinstance(c, ast.Nonlocal):
                nonl.update(c.names)
            walk(c)
    if isinstance(fn, ast.Lambda):
        for c in ast.walk(fn.body):
            if isinstance(c, ast.Yield):
                gen[0] = True
    else:
        for s in fn.body:
            walk(ast.Module(body=[s], type_ignores=[]))
    r = (names - nonl, glob, nonl, gen[0])
    _locals[fn] = r
    return r


class Ex(object):

    # ------------------------------------------------------------ joins

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        c = constrain(a.pc, bor(a.pc, b.pc))
        return self.merge(c, a, b)

    # ------------------------------------------------------------ blocks

    def block(self, stmts, st, flow):
        for s in stmts:
            if st is None or st.pc is FALSE:
                return None
            self.cur_line = s.lineno
            self.nstmts += 1
            if self.nstmts > self.budget:
                raise Limit('statements')
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.opaque(s, 'statement ' + type(s).__name__)
                continue
            try:
                st = m(s, st, flow)
            except Raise:
                return None
        return st

    def s_Expr(self, n, st, flow):
        if isinstance(n.value, ast.Constant):
            return st
        self.expr(n.value, st)
        return st

    def s_Pass(self, n, st, flow):
        return st

    def s_Assign(self, n, st, flow):
        v = self.expr(n.value, st)
        for t in n.targets:
            self.assign(t, v, st)
        return st

    def s_AnnAssign(self, n, st, flow):
        if n.value is not None:
            self.assign(n.target, self.expr(n.value, st), st)
        return st

    def s_AugAssign(self, n, st, flow):
        from .ev import OPS
        op = OPS.get(type(n.op), '?')
        t = n.target
        if isinstance(t, ast.Name):
            cur = self.expr(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            v = self.expr(n.value, st)
            r = self.aug(st, op, cur, v, n)
            self.assign(t, r, st)
        elif isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            name = self.mangle(t.attr)
            cur = self.getattr(st, o, name, t)
            v = self.expr(n.value, st)
            r = self.aug(st, op, cur, v, n)
            self.setattr(st, o, name, r, n)
        elif isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            if isinstance(t.slice, ast.Slice):
                self.opaque(n, 'augmented slice')
                return st
            k = self.expr(t.slice, st)
            cur = self.lift_eff2(st, o, k, lambda s, x, y: self.index_leaf(s, x, y, t))
            v = self.expr(n.value, st)
            r = self.aug(st, op, cur, v, n)
            self.setitem(st, o, k, r, n)
        return st

    def aug(self, st, op, cur, v, n):
        p = self.pure_bin(op, cur, v)
        if p is not None:
            return p

        def f(s, x, y):
            if x.op == 'ref' and op == '+' and self.is_listlike(x) and self.find_method(s, x, '__iadd__') is None:
                if not self.iterable_leaf(s, y, n):
                    return self.opaque(n, 'not iterable', quiet=True)
                sq = self.iter_seq(s, y, n)
                self.set_content(s, x, concat(self.content(s, x), sq), n)
                return x
            if x.op == 'ref':
                m = self.find_method(s, x, '__i%s__' % DUNDER.get(op, op))
                if m is not None:
                    return self.call(s, m, [y], {}, n)
                if op in '|&-' and self.class_of(x.args[0]) == 'set':
                    r = self.set_op(s, op, x, y, n)
                    self.set_content(s, x, self.content(s, r), n)
                    return x
            return self.bin_leaf(s, op, x, y, n)
        return self.lift_eff2(st, cur, v, f)

    def iterable_leaf(self, st, y, n):
        """raises TypeError on the part of the state where y is not iterable; False if it never is"""
        if y.op == 'ref':
            c = self.class_of(y.args[0])
            if isinstance(c, Cls) and not self.is_listlike(y) and self.find_method(st, y, '__iter__') is None \
                    and self.find_method(st, y, '__getitem__') is None:
                self.raise_(st, TRUE, 'TypeError', n, 'not iterable')
                return False
            return True
        if y.op in ('p', 'cx') or y is NONE or y is TRUE or y is FALSE:
            self.raise_(st, TRUE, 'TypeError', n, 'not iterable')
            return False
        if y.op in ('sym', 'app') and not isstr(y):
            c = constrain(lit(atom('iterable', y)), st.pc)
            self.raise_(st, bnot(c), 'TypeError', n, 'not iterable')
        return True

    # ------------------------------------------------------------ assignment

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            name = self.mangle(t.id)
            st.m[self.var_key(st, name)] = v
            return
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, st)
            self.setattr(st, o, self.mangle(t.attr), v, t)
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(st, v, t)
            for x, y in zip([e.value if isinstance(e, ast.Starred) else e for e in t.elts], vs):
                self.assign(x, y, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, st)
            if isinstance(t.slice, ast.Slice):
                lo = self.expr(t.slice.lower, st) if t.slice.lower else NONE
                hi = self.expr(t.slice.upper, st) if t.slice.upper else NONE
                if t.slice.step is not None:
                    self.opaque(t, 'extended slice assignment')
                    return
                self.setslice(st, o, lo, hi, v, t)
                return
            k = self.expr(t.slice, st)
            self.setitem(st, o, k, v, t)
            return
        self.opaque(t, 'assignment target')

    def var_key(self, st, name):
        fr = self.frames[-1]
        if fr.locals_ is None or name in fr.globals_:
            return (fr.term if fr.locals_ is None else fr.module.term, name)
        f = fr
        while f is not None:
            if f.locals_ is None:
                break
            if name in f.locals_ and name not in f.nonlocals:
                return (f.term, name)
            f = f.parent
        return (fr.term, name)

    def unpack(self, st, v, t):
        k = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

        def parts(s, x):
            if x.op == 'tup':
                vals = list(x.args[0])
            else:
                sq = x if x.op == 'seq' else self.iter_seq(s, x, t)
                if sq.op == 'ite':
                    return sq
                if all(p.op == 'e' for p in sq.args[0]):
                    vals = [p.args[0] for p in sq.args[0]]
                else:
                    ln = seq_len(sq)
                    self.raise_(s, bnot(eq_zero(padd(ln, num(-k)))) if ln.op == 'p' and not star else FALSE, 'ValueError', t, 'unpack')
                    if star:
                        return None
                    return [self.seq_get(s, sq, num(i), t) for i in range(k)]
            if star:
                i = star[0]
                after = k - i - 1
                if len(vals) < k - 1:
                    return None
                mid = self.new_list(s, seq(*vals[i:len(vals) - after]), t)
                vals = vals[:i] + [mid] + vals[len(vals) - after:]
            if len(vals) != k:
                self.raise_(s, TRUE, 'ValueError', t, 'unpack')
                return None
            return vals

        def f(s, x):
            vals = parts(s, x)
            if isinstance(vals, N):
                return self.lift_eff(s, vals, f)
            if vals is None:
                return mk('tup', tuple(self.opaque(t, 'unpacking %d' % i) for i in range(k)))
            return mk('tup', tuple(vals))
        tv = self.lift_eff(st, v, f)
        return [lift1(lambda x, i=i: x.args[0][i], tv) for i in range(k)]

    def setitem(self, st, o, k, v, n):
        def f(s, x, y):
            if x.op == 'ref':
                c = self.class_of(x.args[0])
                if c == 'dict':
                    self.dict_set(s, x, y, v, n)
                    return NONE
                m = self.find_method(s, x, '__setitem__')
                if m is not None:
                    return self.call(s, m, [y, v], {}, n)
                if self.is_listlike(x):
                    sq = self.content(s, x)
                    kk = self.norm_index(s, sq, asnum(y), n)

                    def g(q, i):
                        a = self.seq_cut(s, q, num(0), i, seq_len(q))
                        b = self.seq_cut(s, q, padd(i, num(1)), seq_len(q), seq_len(q))
                        return concat(concat(a, seq(v)), b)
                    self.set_content(s, x, lift2(g, sq, kk), n)
                    return NONE
            self.opaque(n, 'item assignment')
            return NONE
        self.lift_eff2(st, o, k, f)

    def setslice(self, st, o, lo, hi, v, n):
        def f(s, x):
            if x.op == 'ref' and self.is_listlike(x):
                new = self.iter_seq(s, v, n)
                sq = self.content(s, x)
                if lo is NONE and hi is NONE:
                    self.set_content(s, x, new, n)
                    return NONE

                def g(q):
                    ln = seq_len(q)
                    l2, h2 = self.slice_bounds(s, ln, lo, hi)
                    return liftn(lambda l, h, m: concat(concat(self.seq_cut(s, q, num(0), l, m), new), self.seq_cut(s, q, h, m, m)),
                                 [l2, h2, ln])
                self.set_content(s, x, lift1(g, sq), n)
                return NONE
            self.opaque(n, 'slice assignment')
            return NONE
        self.lift_eff(st, o, f)

    def s_Delete(self, n, st, flow):
        for t in n.targets:
            if isinstance(t, ast.Name):
                st.m[self.var_key(st, t.id)] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.expr(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo = self.expr(t.slice.lower, st) if t.slice.lower else NONE
                    hi = self.expr(t.slice.upper, st) if t.slice.upper else NONE
                    self.setslice(st, o, lo, hi, mk('tup', ()), t)
                else:
                    k = self.expr(t.slice, st)

                    def f(s, x, y):
                        if x.op == 'ref' and self.is_listlike(x):
                            self.list_pop(s, x, asnum(y), t)
                            return NONE
                        self.opaque(t, 'item deletion')
                        return NONE
                    self.lift_eff2(st, o, k, f)
            elif isinstance(t, ast.Attribute):
                o = self.expr(t.value, st)
                self.setattr(st, o, self.mangle(t.attr), ABSENT, t)
            else:
                self.opaque(t, 'deletion')
        return st

    # ------------------------------------------------------------ control flow

    def s_If(self, n, st, flow):
        c = constrain(self.truth(st, self.expr(n.test, st), n.test), st.pc)
        if c is TRUE:
            return self.block(n.body, st, flow)
        if c is FALSE:
            return self.block(n.orelse, st, flow)
        pa, pb = band(st.pc, c), band(st.pc, bnot(c))
        if pa is FALSE:
            return self.block(n.orelse, st, flow)
        if pb is FALSE:
            return self.block(n.body, st, flow)
        a = State(dict(st.m), pa)
        b = State(dict(st.m), pb)
        a = self.block(n.body, a, flow)
        b = self.block(n.orelse, b, flow)
        if a is None and b is None:
            return None
        return self.merge(c, a, b)

    def s_Return(self, n, st, flow):
        v = self.expr(n.value, st) if n.value is not None else NONE
        flow.ret.append((st.pc, v, st))
        return None

    def s_Break(self, n, st, flow):
        flow.brk.append(st)
        return None

    def s_Continue(self, n, st, flow):
        flow.cont.append(st)
        return None

    def s_Global(self, n, st, flow):
        self.frames[-1].globals_ = self.frames[-1].globals_ | set(n.names)
        return st

    def s_Nonlocal(self, n, st, flow):
        self.frames[-1].nonlocals = self.frames[-1].nonlocals | set(n.names)
        return st

    def s_Assert(self, n, st, flow):
        c = constrain(self.truth(st, self.expr(n.test, st), n.test), st.pc)
        self.raise_(st, bnot(c), 'AssertionError', n, 'assert')
        pc = band(st.pc, c)
        if pc is FALSE:
            return None
        st.pc = pc
        return st

    def exc_name(self, v):
        if v.op == 'exc':
            return v.args[0]
        if v.op == 'bi':
            return v.args[0]
        if v.op == 'cls':
            return v.args[0].name
        if v.op == 'ref':
            c = self.class_of(v.args[0])
            return c.name if isinstance(c, Cls) else str(c)
        return 'Exception'

    def s_Raise(self, n, st, flow):
        if n.exc is None:
            name, v = (self.cur_exc[-1] if self.cur_exc else ('Exception', NONE))
        else:
            v = self.expr(n.exc, st)
            name = self.exc_name(v)
        self.pend.append((st.pc, name, v, st))
        self.raises.append((st.pc, name, self.site(n)))
        return None

    def exc_isa(self, name, h):
        from .interp import EXC
        if h is None:
            return True
        if name == h:
            return True
        e, hc = EXC.get(name), EXC.get(h)
        if e is None:
            for c in self.classes.values():
                if c.name == name:
                    return any(self.exc_isa(b if isinstance(b, str) else b.name, h) for b in c.bases)
            e = Exception
        return hc is not None and issubclass(e, hc)

    def handler_names(self, h, st):
        if h.type is None:
            return [None]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.expr(t, st)
            out.append(self.exc_name(v) if v.op in ('bi', 'cls') else
                       (t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None))
        return [x.split('.')[-1] if x else x for x in out]

    def s_Try(self, n, st, flow):
        hn = [self.handler_names(h, st) for h in n.handlers]
        base = len(self.pend)
        fl = Flow()
        self.handlers.append([x for hs in hn for x in hs])
        try:
            out = self.block(n.body, st, fl)
        finally:
            self.handlers.pop()
        caught = self.pend[base:]
        del self.pend[base:]
        if out is not None and n.orelse:
            out = self.block(n.orelse, out, fl)
        for h, names in zip(n.handlers, hn):
            mine = [p for p in caught if any(self.exc_isa(p[1], x) for x in names)]
            caught = [p for p in caught if p not in mine]
            if not mine:
                continue
            hs = None
            val = None
            for pc, en, v, s in mine:
                s = State(dict(s.m), pc)
                ev = v if v is not NONE else mk('exc', en, ())
                if hs is None:
                    hs, val = s, ev
                else:
                    val = ite(constrain(s.pc, bor(s.pc, hs.pc)), ev, val)
                    hs = self.join(s, hs)
            if h.name:
                hs.m[self.var_key(hs, h.name)] = val
            self.cur_exc.append((mine[0][1], val))
            r = self.block(h.body, hs, fl)
            self.cur_exc.pop()
            out = self.join(r, out)
        self.pend += caught
        if n.finalbody:
            if out is not None:
                out = self.block(n.finalbody, out, flow)
            for k, (pc, v, s) in enumerate(list(fl.ret)):
                s2 = self.block(n.finalbody, State(dict(s.m), s.pc), flow)
                fl.ret[k] = (pc, v, s2 or s)
            for lst in (fl.brk, fl.cont):
                for k, s in enumerate(list(lst)):
                    lst[k] = self.block(n.finalbody, s, flow) or s
        flow.ret += fl.ret
        flow.brk += fl.brk
        flow.cont += fl.cont
        return out

    def s_With(self, n, st, flow):
        for it in n.items:
            v = self.expr(it.context_expr, st)
            r = v
            if any(l.op == 'ref' and self.find_method(st, l, '__enter__') is not None for l in leaves(v)):
                m = self.getattr(st, v, '__enter__', n)
                r = self.lift_eff(st, m, lambda s, x: self.call(s, x, [], {}, n))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, st)
        out = self.block(n.body, st, flow)
        return out

    # ------------------------------------------------------------ definitions

    def make_func(self, st, n, name):
        fr = self.frames[-1]
        clo = None
        f = fr
        if fr.locals_ is not None:
            clo = fr
            while f is not None:
                f.captured = True
                f = f.parent
        owner = fr.owner if clo is not None else self.cur_class
        defaults = [self.expr(d, st) for d in n.args.defaults]
        kwd = {a.arg: self.expr(d, st) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None}
        f = Func(n, fr.module, name, clo, owner, defaults, kwd)
        self.funcs.append(f)
        return mk('fn', f)

    def s_FunctionDef(self, n, st, flow):
        f = self.make_func(st, n, n.name)
        v = f
        for d in reversed(n.decorator_list):
            dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if dn == 'staticmethod':
                v.args[0].kind = 'static'
            elif dn == 'classmethod':
                v.args[0].kind = 'class'
            elif dn == 'property':
                v = mk('prop', v, NONE)
            elif dn == 'setter':
                old = self.expr(d.value, st)
                v = mk('prop', old.args[0], v) if old.op == 'prop' else mk('prop', NONE, v)
            elif dn in ('abstractmethod', 'wraps'):
                pass
            else:
                dv = self.expr(d, st)
                v = self.call(st, dv, [v], {}, n)
        st.m[self.var_key(st, self.mangle(n.name)) if self.frames[-1].locals_ is not None else (self.frames[-1].term, self.mangle(n.name))] = v
        return st

    def s_ClassDef(self, n, st, flow):
        fr = self.frames[-1]
        bases = []
        for b in n.bases:
            v = self.expr(b, st)
            if v.op == 'cls':
                bases.append(v.args[0])
            elif v.op == 'bi':
                bases.append(v.args[0])
            else:
                bases.append('object')
        c = Cls(n.name, fr.module, bases, n)
        self.classes[c.qual] = c
        cf = Frame(fr.func, fr.module, c, fr.parent)
        cf.term = c.term
        cf.locals_ = None
        saved = self.cur_class
        self.cur_class = c
        cf.parent = fr if fr.locals_ is not None else None
        self.frames.append(cf)
        try:
            out = self.block(n.body, st, flow)
        finally:
            self.frames.pop()
            self.cur_class = saved
        for k in list(st.m):
            if k[0] is c.term:
                c.attrs[k[1]] = st.m[k]
        st.m[self.var_key(st, n.name)] = mk('cls', c)
        return out or st

    def s_Import(self, n, st, flow):
        for al in n.names:
            v = self.import_module(st, al.name, n)
            if al.asname:
                x = v
            else:
                x = self.import_module(st, al.name.split('.')[0], n)
            st.m[self.var_key(st, al.asname or al.name.split('.')[0])] = x
        return st

    def import_module(self, st, name, n):
        m = self.load(name)
        if m is not None:
            return mk('mod', m)
        top_ = name.split('.')[0]
        if not self.ext_module(top_):
            self.raise_(st, TRUE, 'ImportError', n, 'no module named ' + name)
        return BI(name)

    def ext_module(self, top_):
        import sys
        return top_ in sys.stdlib_module_names or top_ in ('setuptools', 'pkg_resources')

    def s_ImportFrom(self, n, st, flow):
        if n.module == '__future__':
            return st
        name = n.module or ''
        if n.level:
            base = self.frames[-1].module.name.split('.')
            if not self.frames[-1].module.is_pkg:
                base = base[:-1]
            base = base[:len(base) - (n.level - 1)] if n.level > 1 else base
            name = '.'.join(base + ([name] if name else []))
        m = self.load(name)
        for al in n.names:
            if m is not None:
                if al.name == '*':
                    for (t, k), v in list(self.static.items()):
                        if t is m.term and not k.startswith('_'):
                            st.m[self.var_key(st, k)] = v
                    continue
                v = self.static.get((m.term, al.name))
                if v is None:
                    sub = self.load(name + '.' + al.name)
                    if sub is not None:
                        v = mk('mod', sub)
                    else:
                        self.raise_(st, TRUE, 'ImportError', n, 'cannot import %s from %s' % (al.name, name))
                        v = self.opaque(n, 'import', quiet=True)
            else:
                if not self.ext_module(name.split('.')[0]):
                    self.raise_(st, TRUE, 'ImportError', n, 'no module named ' + name)
                    v = BI(name + '.' + al.name)
                else:
                    import importlib
                    ok = True
                    if name.split('.')[0] not in ('setuptools', 'pkg_resources'):
                        try:
                            md = importlib.import_module(name)
                            ok = hasattr(md, al.name)
                            if not ok:
                                try:
                                    importlib.import_module(name + '.' + al.name)
                                    ok = True
                                except ImportError:
                                    pass
                        except ImportError:
                            ok = False
                    if not ok:
                        self.raise_(st, TRUE, 'ImportError', n, 'cannot import %s from %s' % (al.name, name))
                    v = BI(name + '.' + al.name)
            st.m[self.var_key(st, al.asname or al.name)] = v
        return st

    # ------------------------------------------------------------ attributes

    def find_method(self, st, x, name):
        """bound user method of a leaf, or None"""
        if x.op != 'ref':
            return None
        c = self.class_of(x.args[0])
        if not isinstance(c, Cls):
            return None
        v, cls = self.cls_attr(st, c, name)
        if v is None or v.op != 'fn':
            return None
        return mk('bound', v, x)

    def cls_attr(self, st, c, name):
        for k in c.mro():
            if isinstance(k, Cls):
                v = None
                if st is not None:
                    v = st.m.get((k.term, name))
                if v is None:
                    v = self.static.get((k.term, name))
                if v is None:
                    v = k.attrs.get(name)
                if v is not None:
                    return v, k
        return None, None

    def getattr(self, st, o, name, n, default=None):
        return constrain(self.lift_eff(st, o, lambda s, x: self.getattr_leaf(s, x, name, n, default)), st.pc)

    def getattr_leaf(self, st, x, name, n, default=None):
        op = x.op
        if op == 'ref':
            t = x.args[0]
            c = self.class_of(t)
            if isinstance(c, Cls):
                cv, _ = self.cls_attr(st, c, name)
                if cv is not None and cv.op == 'prop':
                    return self.call(st, cv.args[0], [x], {}, n)
                if name == '__class__':
                    return mk('cls', c)
            v = self.read(st, t, name)
            v = constrain(v, st.pc)
            if v is not ABSENT and not (v.op == 'ite' and ABSENT in leaves(v)):
                return v
            if v is ABSENT:
                return self.class_lookup(st, x, c, name, n, default)
            g = lift1(lambda l: B(l is ABSENT), v)
            return self.cond(st, constrain(g, st.pc), lambda s: self.class_lookup(s, x, c, name, n, default),
                             lambda s: constrain(v, s.pc))
        if op == 'cls':
            c = x.args[0]
            v, k = self.cls_attr(st, c, name)
            if v is not None:
                if v.op == 'fn' and v.args[0].kind == 'class':
                    return mk('bound', v, x)
                return v
            if name == '__name__':
                return C(c.name)
            for b in c.mro():
                if isinstance(b, str) and b != 'object':
                    return BI(b + '.' + name)
            if name in ('__init__', '__new__'):
                return BI('object.' + name)
            if default is not None:
                return default
            self.raise_(st, TRUE, 'AttributeError', n, '%s.%s' % (c.name, name))
            return self.opaque(n, 'attribute ' + name)
        if op == 'mod':
            m = x.args[0]
            v = st.m.get((m.term, name))
            if v is None:
                v = self.static.get((m.term, name))
            if v is None:
                sub = self.load(m.name + '.' + name)
                if sub is not None:
                    return mk('mod', sub)
                if default is not None:
                    return default
                self.raise_(st, TRUE, 'AttributeError', n, '%s.%s' % (m.name, name))
                return self.opaque(n, 'attribute ' + name)
            return v
        if op == 'super':
            cls, o = x.args
            for l in leaves(o):
                oc = self.class_of(l.args[0]) if l.op == 'ref' else None
                if not isinstance(oc, Cls):
                    oc = cls.args[0]
                mro = oc.mro()
                i = mro.index(cls.args[0]) if cls.args[0] in mro else -1
                for k in mro[i + 1:]:
                    if isinstance(k, Cls):
                        v = st.m.get((k.term, name)) or self.static.get((k.term, name)) or k.attrs.get(name)
                        if v is not None:
                            return mk('bound', v, o) if v.op == 'fn' else v
                    elif k != 'object':
                        return mk('bound', BI(k + '.' + name), o)
                return mk('bound', BI('object.' + name), o)
        if op == 'bi':
            return self.ext_attr(st, x, name, n)
        if op == 're':
            return mk('bound', BI('re.P.' + name), x)
        if op == 'exc':
            if name == 'args':
                return mk('tup', x.args[1])
            return app('excattr', x, name)
        if op == 'cx':
            if name == 'real':
                return x.args[0]
            if name == 'imag':
                return x.args[1]
            return mk('bound', BI('complex.' + name), x)
        if op == 'fn':
            if name == '__name__':
                return C(x.args[0].name)
            return mk('bound', BI('function.' + name), x)
        if isstr(x):
            return mk('bound', BI('str.' + name), x)
        if op == 'c' and isinstance(x.args[1], bytes):
            return mk('bound', BI('bytes.' + name), x)
        if x is NONE:
            if default is not None:
                return default
            self.raise_(st, TRUE, 'AttributeError', n, 'None.%s' % name)
            return self.opaque(n, 'attribute of None', quiet=True)
        if isnumlike(x):
            if name in ('real',):
                return asnum(x)
            if name == 'imag':
                return num(0)
            return mk('bound', BI('float.' + name), x)
        if op == 'tup':
            return mk('bound', BI('tuple.' + name), x)
        if op in ('sym', 'app', 'rematch'):
            return self.ext_attr(st, x, name, n)
        self.raise_(st, TRUE, 'AttributeError', n, '%s.%s' % (op, name))
        return self.opaque(n, 'attribute %s of %s' % (name, op))

    def class_lookup(self, st, x, c, name, n, default=None):
        t = x.args[0]
        if isinstance(c, Cls):
            v, k = self.cls_attr(st, c, name)
            if v is not None:
                if v.op == 'fn':
                    kd = v.args[0].kind
                    if kd == 'static':
                        return v
                    if kd == 'class':
                        return mk('bound', v, mk('cls', c))
                    return mk('bound', v, x)
                if v.op == 'bi':
                    return v
                return v
            for b in c.mro():
                if isinstance(b, str) and b != 'object' and self.has_builtin_method(b, name):
                    return mk('bound', BI(b + '.' + name), x)
            ga, _ = self.cls_attr(st, c, '__getattr__')
            if ga is not None and ga.op == 'fn':
                return self.call(st, ga, [x, C(name)], {}, n)
            if name == '__dict__':
                return mk('ref', app('dictof', t))
            if name in ('__init__', '__setattr__'):
                return mk('bound', BI('object.' + name), x)
            if default is not None:
                return default
            self.raise_(st, TRUE, 'AttributeError', n, '%s has no attribute %s' % (c.name, name))
            return self.opaque(n, 'attribute %s.%s' % (c.name, name))
        b = c.split(':')[0] if isinstance(c, str) else None
        if b:
            if self.has_builtin_method(b, name):
                return mk('bound', BI(b + '.' + name), x)
            r = self.ext_obj_attr(st, x, b, name, n)
            if r is not None:
                return r
            if default is not None:
                return default
            self.raise_(st, TRUE, 'AttributeError', n, '%s has no attribute %s' % (b, name))
        return self.opaque(n, 'attribute %s of %s' % (name, b))

    def has_builtin_method(self, b, name):
        if name == '$push':
            return True
        import array
        import argparse
        T = {'list': list, 'dict': dict, 'set': set, 'array': array.array, 'iter': None}.get(b)
        return T is not None and hasattr(T, name)

    def setattr(self, st, o, name, v, n):
        ls = leaves(o)
        for x in ls:
            g = TRUE if len(ls) == 1 else constrain(lift1(lambda l: B(l is x), o), st.pc)
            if g is FALSE:
                continue
            if x.op == 'ref':
                t = x.args[0]
                c = self.class_of(t)
                if isinstance(c, Cls):
                    cv, _ = self.cls_attr(st, c, name)
                    if cv is not None and cv.op == 'prop':
                        self.cond(st, g, lambda s: self.call(s, cv.args[1], [x, v], {}, n), lambda s: NONE)
                        continue
                    self.check_slots(st, c, name, n)
                if g is TRUE:
                    self.write(st, t, name, v, n)
                else:
                    self.write(st, t, name, ite(g, v, self.read(st, t, name)), n)
            elif x.op == 'cls':
                self.write(st, x.args[0].term, name, v if g is TRUE else ite(g, v, self.read(st, x.args[0].term, name)), n)
            elif x.op == 'mod':
                self.write(st, x.args[0].term, name, v, n)
            elif x is NONE:
                self.raise_(st, g, 'AttributeError', n, 'None.%s assigned' % name)
            elif x.op in ('sym', 'app'):
                if x.op == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('unk:'):
                    self.unsup.append((self.site(n), 'attribute assignment on an unknown value'))
                self.write(st, x, name, v if g is TRUE else ite(g, v, app('attr', x, name)), n)
            elif x.op == 'bi':
                pass
            else:
                self.raise_(st, g, 'AttributeError', n, 'assignment to %s.%s' % (x.op, name))

    def check_slots(self, st, c, name, n):
        slots = set()
        for k in c.mro():
            if isinstance(k, Cls):
                s = k.attrs.get('__slots__')
                if s is None:
                    return
                for l in leaves(s):
                    if l.op == 'tup':
                        slots |= {e.args[1] for e in l.args[0] if e.op == 'c'}
                    elif l.op == 'c':
                        slots.add(l.args[1])
                    else:
                        return
            elif k not in ('object', 'list'):
                return
        if name not in slots:
            self.raise_(st, TRUE, 'AttributeError', n, '%s has no slot %s' % (c.name, name))

    # ------------------------------------------------------------ calls

    def call(self, st, f, args, kw, n):
        op = f.op
        if op == 'ite':
            return self.lift_eff(st, f, lambda s, x: self.call(s, x, args, kw, n))
        if op == 'fn':
            return self.call_func(st, f.args[0], args, kw, n)
        if op == 'bound':
            fn, slf = f.args
            return self.call(st, fn, [slf] + list(args), kw, n)
        if op == 'cls':
            return self.instantiate(st, f.args[0], args, kw, n)
        if op == 'bi':
            return self.call_builtin(st, f.args[0], args, kw, n)
        if op == 'partial':
            return self.call(st, f.args[0], list(f.args[1]) + list(args), dict(f.args[2], **kw) if len(f.args) > 2 else kw, n)
        if op == 'ref':
            m = self.find_method(st, f, '__call__')
            if m is not None:
                return self.call(st, m, args, kw, n)
        if op in ('sym', 'app'):
            return self.call_opaque(st, f, args, kw, n)
        if f is NONE:
            self.raise_(st, TRUE, 'TypeError', n, 'None called')
            return self.opaque(n, 'call of None', quiet=True)
        self.lost.append((self.site(n), 'call of ' + op))
        return self.opaque(n, 'call of ' + op)

    def call_opaque(self, st, f, args, kw, n):
        h = self.ext_hooks.get(f)
        if h is not None:
            return h(self, st, args, kw, n)
        if f.op == 'sym' and isinstance(f.args[0], str) and f.args[0].startswith('unk:'):
            what = f.args[0].split(':', 3)[-1]
            if not (what.startswith(('name ', 'undefined ', 'missing key', 'call of ')) or what.startswith('attribute ') and ' of ' not in what):
                self.lost.append((self.site(n), 'call of unknown'))    # a callee that is not modelled: its effects are lost
            return self.opaque(n, 'call of unknown', quiet=True)
        if any(isinstance(a, tuple) for a in args):
            self.lost.append((self.site(n), 'starred call'))
            return self.opaque(n, 'starred call')
        return liftn(lambda *a: app('call', f, *a), list(args)) if args else app('call', f)

    def instantiate(self, st, c, args, kw, n):
        if 'Exception' in c.base_names() or any(isinstance(b, str) and b.endswith('Error') for b in c.mro()):
            init, k0 = self.cls_attr(st, c, '__init__')
            if init is None:
                return mk('exc', c.name, tuple(a for a in args if not isinstance(a, tuple)))
        r = self.alloc(st, c, n)
        hk = self.intrinsics.get(c.qual + '.__new__')
        names = c.base_names()
        if 'list' in names:
            st.m[(r.args[0], '$seq')] = EMPTYSEQ
        if 'dict' in names:
            st.m[(r.args[0], '$items')] = EMPTYSEQ
        init, k = self.cls_attr(st, c, '__init__')
        if init is not None:
            self.call(st, init, [r] + list(args), kw, n)
        elif 'list' in names and args:
            st.m[(r.args[0], '$seq')] = self.iter_seq(st, args[0], n)
        elif args or kw:
            self.raise_(st, TRUE, 'TypeError', n, '%s() takes no arguments' % c.name)
        return r

    def bind(self, st, f, args, kw, n):
        """parameter bindings of a call: dict name -> V"""
        a = f.node.args
        params = [x.arg for x in list(getattr(a, 'posonlyargs', [])) + a.args]
        out = {}
        args = list(args)
        rest = []
        for i, v in enumerate(args):
            if isinstance(v, tuple):
                # starred argument of unknown length
                sq = v[1]
                need = len(params) - i
                if a.vararg and i >= len(params):
                    rest.append(v)
                    continue
                vals = self.unpack_seq(st, sq, need, n)
                for p, x in zip(params[i:], vals):
                    out[p] = x
                break
            if i < len(params):
                out[params[i]] = v
            else:
                rest.append(v)
        if rest:
            if a.vararg:
                if all(not isinstance(x, tuple) for x in rest):
                    out[a.vararg.arg] = self.tup(rest)
                else:
                    out[a.vararg.arg] = self.opaque(n, 'starred arguments')
            else:
                self.raise_(st, TRUE, 'TypeError', n, 'too many arguments for ' + f.qual)
        elif a.vararg:
            out[a.vararg.arg] = mk('tup', ())
        extra = {}
        kwo = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in params or k in kwo:
                if k in out and k in params[:len(args)]:
                    self.raise_(st, TRUE, 'TypeError', n, 'multiple values for ' + str(k))
                out[k] = v
            else:
                extra[k] = v
        if extra and not a.kwarg:
            self.raise_(st, TRUE, 'TypeError', n, 'unexpected argument %s for %s' % (sorted(map(str, extra))[0], f.qual))
        if a.kwarg:
            d = self.alloc(st, 'dict', n, ':kw')
            st.m[(d.args[0], '$items')] = seq(*[mk('tup', (C(k), mk('box', v) if v.op == 'ite' else v)) for k, v in extra.items()])
            out[a.kwarg.arg] = d
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            if p not in out:
                out[p] = d
        for p, d in f.kwdefaults.items():
            if p not in out:
                out[p] = d
        for p in params + kwo:
            if p not in out:
                self.raise_(st, TRUE, 'TypeError', n, 'missing argument %s for %s' % (p, f.qual))
                out[p] = self.opaque(n, 'missing argument', quiet=True)
        return out

    def unpack_seq(self, st, sq, k, n):
        t = ast.Tuple(elts=[ast.Name(id='_%d' % i, ctx=ast.Store()) for i in range(k)], ctx=ast.Store())
        t.lineno = getattr(n, 'lineno', 0)
        r = self.new_list(st, sq, n)
        return self.unpack(st, r, t)

    def call_func(self, st, f, args, kw, n):
        self.functions_seen.add(f.qual)
        if self.trace_calls and not self.rerun:
            self.calls.append((f.qual, st.pc, tuple(args), dict(kw), self.site(n)))
        h = self.intrinsics.get(f.qual)
        if h is not None:
            r = h(self, st, args, kw, n)
            if r is not None:
                return r
        if len(self.callstack) > 60 or sum(1 for g in self.callstack if g is f.node) > 2:
            return self.opaque(n, 'recursion in ' + f.qual)
        b = self.bind(st, f, args, kw, n)
        fr = Frame(f, f.module, f.owner, f.closure)
        names, glob, nonl, gen = local_names(f.node)
        fr.locals_ = names
        fr.globals_ = set(glob)
        fr.nonlocals = set(nonl)
        for k, v in b.items():
            st.m[(fr.term, k)] = v
        if gen:
            st.m[(fr.term, '$yield')] = EMPTYSEQ
        pc0 = st.pc
        fl = Flow()
        self.frames.append(fr)
        self.callstack.append(f.node)
        line = getattr(self, 'cur_line', 0)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.expr(f.node.body, st)
                out = None
                fl.ret.append((st.pc, v, st))
            else:
                out = self.block(f.node.body, State(st.m, st.pc), fl)
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.cur_line = line
        exits = list(fl.ret)
        if out is not None:
            exits.append((out.pc, NONE, out))
        exits = [e for e in exits if e[0] is not FALSE]
        if not exits:
            raise Raise()
        pc, val, s = exits[-1]
        s = State(s.m, pc)
        for pc, v, s2 in reversed(exits[:-1]):
            c = constrain(pc, bor(pc, s.pc))
            val = ite(c, v, val)
            s = self.merge(c, State(s2.m, pc), s)
        if gen:
            y = s.m.get((fr.term, '$yield'), EMPTYSEQ)
            st.m, st.pc = dict(s.m), s.pc
            val = self.new_list(st, y, n)
            s = st
        if not fr.captured:
            m = {k: v for k, v in s.m.items() if k[0] is not fr.term}
        else:
            m = dict(s.m)
        st.m, st.pc = m, s.pc
        return constrain(val, st.pc)
