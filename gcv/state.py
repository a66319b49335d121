"""Program entities and abstract state."""
from .alg import *
from . import alg


class Unsup(Exception):
    """construct outside of the modelled subset"""


class Mod(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.term = mk('obj', self)
        self.cls = 'module'
        self.loaded = False

    def __repr__(self):
        return 'module ' + self.name


class Cls(object):
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.qual = (module.name + '.' if module else '') + name
        self.attrs = {}
        self.term = mk('obj', self)
        self.cls = 'type'

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def find(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.attrs:
                return c.attrs[name], c
        return None, None

    def base_names(self):
        return [c if isinstance(c, str) else c.name for c in self.mro()]

    def __repr__(self):
        return self.qual


class Func(object):
    def __init__(self, node, module, name, closure, owner, defaults, kwdefaults):
        self.node, self.module, self.name = node, module, name
        self.closure, self.owner = closure, owner
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.gen = None
        self.kind = 'func'      # func / static / class / property
        self.qual = (module.name if module else '?') + '.' + ((owner.name + '.') if owner else '') + name

    def __repr__(self):
        return self.qual


class Obj(object):
    """concrete allocation"""
    def __init__(self, cls, site):
        self.cls, self.site = cls, site

    def __repr__(self):
        return '%s#%s' % (self.cls if isinstance(self.cls, str) else self.cls.name, self.site)


class Frame(object):
    cls = 'frame'

    def __init__(self, func, module, owner, parent):
        self.func, self.module, self.owner, self.parent = func, module, owner, parent
        self.term = mk('obj', self)
        self.globals_ = set()
        self.nonlocals = set()
        self.captured = False
        self.locals_ = None

    def __repr__(self):
        return 'frame:%s' % (self.func.name if self.func else '?')


class State(object):
    __slots__ = ('m', 'pc')

    def __init__(self, m=None, pc=TRUE):
        self.m = m if m is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.m), self.pc)


_con = alg.memo()


def constrain(f, c):
    """f simplified for the care set c (c not FALSE)"""
    if c is TRUE or f.op != 'ite':
        return f
    if c is FALSE:
        return f
    k = (f, c)
    r = _con.get(k)
    if r is not None:
        return r
    t = top(f, c)
    f1, f0 = cof(f, t)
    c1, c0 = cof(c, t)
    f1, f0 = restrict(f1, t, True), restrict(f0, t, False)
    if f1 is f0 and f.args[0] is not t:
        # atom only in the care set: quantify it
        r = constrain(f1, ite(c1, TRUE, c0))
    elif c0 is FALSE:
        r = constrain(f1, c1)
    elif c1 is FALSE:
        r = constrain(f0, c0)
    else:
        r = ite(lit(t), constrain(f1, c1), constrain(f0, c0))
    _con[k] = r
    return r
