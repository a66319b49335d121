"""Abstract interpreter over the syntax trees of the package (never imports or runs it)."""
import ast
import builtins
import os
import sys

from .alg import *
from . import alg
from .state import *
from .ex import Ex, Flow, Raise
from .ev import Ev
from .lib import Lib
from .loops import Loops, LoopRec

WORLD = mk('sym', 'world', 'obj')
EXC = {n: getattr(builtins, n) for n in dir(builtins)
       if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}


def same_keys(c, v, w):
    """ite of the items of a dict; one list with chosen values where both hold the same keys"""
    if v.op == 'seq' and w.op == 'seq' and len(v.args[0]) == len(w.args[0]):
        parts = []
        for p, q in zip(v.args[0], w.args[0]):
            if p is q:
                parts.append(p)
                continue
            if p.op != 'e' or q.op != 'e' or p.args[0].op != 'tup' or q.args[0].op != 'tup':
                return ite(c, v, w)
            (k1, a), (k2, b) = p.args[0].args[0], q.args[0].args[0]
            if k1 is not k2:
                return ite(c, v, w)
            a, b = [x.args[0] if x.op == 'box' else x for x in (a, b)]
            r = ite(c, a, b)
            parts.append(mk('e', mk('tup', (k1, mk('box', r) if r.op == 'ite' else r))))
        return mk('seq', tuple(parts))
    return ite(c, v, w)


class Site(object):
    __slots__ = ('file', 'line', 'func')

    def __init__(self, file, line, func):
        self.file, self.line, self.func = file, line, func

    def __repr__(self):
        return '%s:%s (%s)' % (self.file, self.line, self.func)

    def key(self):
        return (self.file, self.line)


class Interp(Ev, Ex, Lib, Loops):
    def __init__(self, root, schema=None):
        self.root = root
        self.schema = schema or {}
        self.mods = {}
        self.classes = {}
        self.static = {}         # (term, name) -> V for module globals / class attributes
        self.site_cache = {}
        self.handlers = []       # stack of handler exception-name lists
        self.pend = []           # pending raises (abs guard, exc leaf, state)
        self.frames = []
        self.site_stack = []
        self.obligs = []         # (guard, exc name, Site, message)
        self.unsup = []
        self.lost = []          # calls whose effects are not known
        self.loops = []
        self.writes = []         # (objterm, attr, old, new, guard, Site)
        self.calls = []          # (qualname, guard, args, Site)
        self.opens = []
        self.intrinsics = {}
        self.ext_hooks = {}
        self.active = {}         # count -> depth of generic indices
        self.active_idx = []
        self.callstack = []
        self.retry = 0
        self.functions_seen = set()
        self.nstmts = 0
        self.budget = 400000
        self.rerun = False
        self.nonraising = False
        self.loop_seq = 0
        self.trace_writes = False
        self.trace_calls = False
        self.raises = []
        self.cur_exc = []
        self.funcs = []
        self.cur_class = None
        self.argspecs = []
        self.re_hook = None
        self.distinct_elems = True
        self.hmap = {}

    # ------------------------------------------------------------ modules

    def load(self, name):
        """load a module of the package by dotted name; None if it is not in the tree"""
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            if not os.path.exists(f):
                if any(x.endswith('.py') for x in os.listdir(path)):
                    f = None
                else:
                    return None
        elif os.path.exists(path + '.py'):
            f = path + '.py'
        else:
            return None
        return self.load_file(name, f)

    def load_file(self, name, f):
        src = open(f, encoding='utf-8').read() if f else ''
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, f or name)
        m = Mod(name, os.path.relpath(f, self.root) if f else name, tree)
        m.is_pkg = bool(f) and os.path.basename(f) == '__init__.py'
        self.mods[name] = m
        self.static[(m.term, '__name__')] = C(name)
        self.static[(m.term, '__file__')] = C(m.path)
        self.run_module(m)
        m.loaded = True
        return m

    def run_module(self, m):
        fr = Frame(None, m, None, None)
        fr.term = m.term
        saved = (self.frames, self.pend, self.handlers, self.active, self.active_idx)
        self.frames, self.pend, self.handlers, self.active, self.active_idx = [fr], [], [], {}, []
        st = State()
        self.mod_states = getattr(self, 'mod_states', {})
        try:
            out = self.block(m.tree.body, st, Flow())
            m.completes = out is not None
            if out is not None:
                st = out
            m.pending = self.pend
        finally:
            self.frames, self.pend, self.handlers, self.active, self.active_idx = saved
        for k, v in st.m.items():
            self.static[k] = v
        return st

    def modname_of(self, fr):
        return fr.module

    # ------------------------------------------------------------ sites

    def site(self, node=None):
        fr = self.frames[-1] if self.frames else None
        mod = fr.module.path if fr and fr.module else '?'
        fn = fr.func.qual.split('.', 1)[-1] if fr and fr.func else '<module>'
        line = getattr(node, 'lineno', None)
        if line is None:
            line = getattr(self, 'cur_line', 0)
        return Site(mod, line, fn)

    def unsupported(self, node, what):
        s = self.site(node)
        self.unsup.append((s, what))
        return sym('unk:%s:%s:%s' % (s.file, s.line, what), 'any')

    # ------------------------------------------------------------ state access

    def read(self, st, term, name):
        """raw instance read: value or ABSENT (leaf-level default for symbolic objects)"""
        k = (term, name)
        v = st.m.get(k)
        if v is not None:
            return v
        v = self.static.get(k)
        if v is not None:
            return v
        if name == '$items' and term.op == 'app' and term.args[0] == 'dictof':
            return seq(*[mk('tup', (a, mk('box', b) if b.op == 'ite' else b)) for a, b in self.namespace_items(st, term.args[1], None)])
        return self.default(st, term, name)

    def default(self, st, term, name):
        if term.op == 'obj':
            o = term.args[0]
            if isinstance(o, Frame):
                return UNDEF
            return ABSENT
        if term.op == 'app' and term.args[0] == 'inst':
            # object allocated in a generic iteration, seen at another index
            g = self.generic_inst(st, term)
            if g is not None and g[0] is not term:
                v = st.m.get((g[0], name))
                if v is None:
                    v = self.read(st, g[0], name)
                return subst(v, g[1]) if g[1] else v
            return ABSENT
        cls = self.class_of(term)
        sch = self.schema_of(cls)
        if sch and name in sch:
            kind = sch[name]
            # a mapped write through the generic element of the same sequence
            v = self.symbolic(app('attr', term, name), kind)
            return self.mapped(st, term, name, v) if term.op == 'app' and term.args[0] == 'at' else v
        if name == '$seq':
            ek = self.elemkind(cls)
            base = app('items', term, ek) if ek else app('items', term, 'any')
            v = mk('seq', (mk('s', base, num(0), len_base(base)),))
            return self.mapped(st, term, name, v) if term.op == 'app' and term.args[0] == 'at' else v
        if term.op == 'app' and term.args[0] == 'at':
            return self.mapped(st, term, name, ABSENT)
        return ABSENT

    def mapped(self, st, term, name, orig):
        """value of attribute of base[k] when a loop wrote that attribute of base[off + i] for every 0 <= i < hi"""
        base, k = term.args[1], term.args[2]
        w = st.m.get((base, '$map', name)) if st is not None else None
        if w is None or k.op != 'p':
            return orig
        return self.map_value(w, k, orig)

    def map_value(self, w, k, orig):
        i, off, hi, val, prev = w.args
        if prev is not NONE:
            orig = self.map_value(prev, k, orig)
        j = padd(k, off, -1)
        c = band(bnot(lt_zero(j)), lt_zero(padd(j, hi, -1)))
        return ite(c, subst(val, {i: j}), orig) if c is not FALSE else orig

    def generic_inst(self, st, term):
        o = term.args[1].args[0]
        g = getattr(o, 'generic', None)
        if g is None:
            return None
        m = {}
        for a, b in zip(g.args[2:], term.args[2:]):
            if a is not b:
                s = a.args[0][0][0][0][0]
                m[s] = b
        return g, m

    def elemkind(self, cls):
        if isinstance(cls, str) and cls.startswith('list:'):
            return cls[5:]
        if isinstance(cls, Cls):
            sch = self.schema_of(cls)
            if sch and '$elem' in sch:
                return sch['$elem']
        return None

    def schema_of(self, cls):
        if isinstance(cls, Cls):
            for c in cls.mro():
                if isinstance(c, Cls) and c.qual in self.schema:
                    return self.schema[c.qual]
            return None
        return self.schema.get(cls)

    def symbolic(self, term, kind):
        if kind.startswith('!'):
            return self.symbolic(term, kind[1:])
        if kind.endswith('?'):
            k = kind[:-1]
            return ite_atom(atom('none', term), NONE, self.symbolic(term, k))
        if kind in ('num', 'int', 'bool'):
            if kind == 'int':
                term = mk('sym', term, 'int')
            return typed(term, kind)
        if kind == 'str':
            return mk('sym', term, 'str')
        if kind.startswith('obj:') or kind.startswith('list:'):
            return mk('ref', mk('sym', term, 'obj', kind if kind.startswith('list:') else kind[4:]))
        if kind == 'any':
            return term
        if kind == 'zero':
            return num(0)
        raise Unsup('schema kind ' + kind)

    def class_of(self, term):
        if term.op == 'obj':
            return term.args[0].cls
        if term.op == 'app' and term.args[0] == 'inst':
            return term.args[1].args[0].cls
        if term.op == 'app' and term.args[0] == 'dictof':
            return 'dict'
        if term.op == 'app' and term.args[0] == 'at':
            base = term.args[1]
            k = None
            if base.op == 'sym' and len(base.args) > 2:
                k = base.args[2]
            elif base.op == 'app' and base.args[0] in ('items', 'seqof'):
                k = base.args[-1]
            if isinstance(k, str):
                if k.startswith('obj:'):
                    return self.class_named(k[4:])
                if k.startswith('list:'):
                    return k
        if term.op == 'sym' and len(term.args) > 2:
            k = term.args[2]
            if isinstance(k, str):
                return k if k.startswith('list:') else self.class_named(k)
        return None

    def class_named(self, q):
        c = self.classes.get(q)
        return c if c is not None else q

    def write(self, st, term, name, v, node=None):
        k = (term, name)
        if self.trace_writes and not self.rerun and isinstance(name, str) and not name.startswith('$'):
            old = self.read(st, term, name)
            self.writes.append((term, name, old, v, st.pc, self.site(node)))
        st.m[k] = v
        if term.op == 'app' and term.args[0] == 'at' and isinstance(name, str):
            # other indices of the same base may be the same object
            base = term.args[1]
            for (t, n) in [kk[:2] for kk in st.m if len(kk) == 2 and kk[1] == name and kk[0] is not term and kk[0].op == 'app'
                           and kk[0].args[0] == 'at' and kk[0].args[1] is base]:
                d = padd(t.args[2], term.args[2], -1)
                if not (is_num_const(d) and num_val(d) != 0):
                    same = eq_zero(d)
                    st.m[(t, n)] = ite(same, v, st.m[(t, n)])

    # ------------------------------------------------------------ merging

    def merge(self, c, a, b):
        """state: a where c, b elsewhere (pc = union)"""
        if a is None:
            return b
        if b is None:
            return a
        pc = bor(a.pc, b.pc)
        if a.m is b.m:
            return State(a.m, pc)
        out = dict(b.m)
        am, bm = a.m, b.m
        for k, v in am.items():
            w = bm.get(k)
            if w is v:
                continue
            if w is None:
                w = self.missing(b, k)
                if w is None:
                    out[k] = v
                    continue
            out[k] = same_keys(c, v, w) if k[1] == '$items' else ite(c, v, w)
        for k, w in bm.items():
            if k not in am:
                v = self.missing(a, k)
                if v is not None:
                    out[k] = ite(c, v, w)
        return State(out, pc)

    def missing(self, st, k):
        """value of key k in a state that does not hold it; None if the object does not exist there"""
        if len(k) == 3:
            return None
        term, name = k
        if (term.op == 'obj' and isinstance(term.args[0], Obj)) or (term.op == 'app' and term.args[0] == 'inst'):
            if (term, '$new') not in st.m:
                return None
            if name == '$new':
                return None
        if term is WORLD and name.startswith('$ev'):
            return EMPTYSEQ
        return self.read(st, term, name)

    def alloc(self, st, cls, node, tag=''):
        s = self.site(node)
        o = Obj(cls, '%s:%s%s' % (s.file, s.line, tag))
        t = mk('obj', o)
        if self.active_idx:
            t = mk('app', 'inst', t, *[poly_of(i) for i in self.active_idx])
            o.generic = t
        st.m[(t, '$new')] = TRUE
        return mk('ref', t)

    def new_list(self, st, seqv, node=None, cls='list'):
        r = self.alloc(st, cls, node)
        st.m[(r.args[0], '$seq')] = seqv
        return r
